//@global assert_eq ! ( $$a , $$b ) => vx_assert_eq($$a, $$b)
//@global NonZeroUsize :: new_unchecked ( $$x ) => vx_nonzero($$x)
//@global key . into ( ) => vx_box(key)
impl Encoder {
//@extract src/encoder/mod.rs impl Encoder :: fn new
//@prop C04 C05
//@ret r
//@contract
    ensures repr(r, EView { frames: Seq::empty(), done: None }), used(r) == 8, r.out@.len() == 0, r.shared_keys is None,
//@at start
    proof { reveal(repr); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn new_to_vec
//@prop C04 C05
//@ret r
//@contract
    requires out@.len() < usize::MAX,
    ensures repr(r, EView { frames: Seq::empty(), done: None }), used(r) == out@.len() + out@.len() % 2 + 8, prefix(out@, r.out@), r.shared_keys is None,
//@at start
    proof {
        reveal(repr);
        assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x & !1) == x - x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x >> 1) == x / 2) by (bit_vector);
    }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn set_shared_keys
//@prop C04 C05
//@contract
    requires live(*old(self)), sk_ok(shared_keys@), prefix(old(self).sk(), shared_keys@),
    ensures final(self).out == old(self).out, final(self).cs() == old(self).cs(), final(self).sk() == shared_keys@, final(self).shared_keys is Some,
        forall|w: EView| #[trigger] repr(*old(self), w) ==> repr(*final(self), w),
//@at start
    let ghost e = *self;
    proof { assert forall|w: EView, g: Encoder| repr(e, w) && g.out == e.out && g.cs() == e.cs() && g.top_collection_closed == e.top_collection_closed && sk_ok(g.sk()) && prefix(e.sk(), g.sk())
        implies #[trigger] repr(g, w) by { lemma_top(e, w); lemma_repr_grow(e, g, w); } }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _write
//@prop C04 C02 C03
//@rewrite self . out . extend ( core :: iter :: repeat ( 0 ) . take ( $$n ) ) => vx_extend_zero(&mut self.out, $$n)
//@rewrite & mut self . out [ $$a .. ( $$b ) ] => vx_slice_mut(&mut self.out, $$a, $$b)
//@ret r
//@contract
    requires value.writable(), old(self).out@.len() % 2 == 0, is_wide ==> value.wide() == (if is_collection || value.size() >= 4 { value.size() } else { 4 }),
        old(self).out@.len() + (if is_wide { value.wide() } else { value.size() }) <= 0x7fff_ffff,
    ensures ({ let n = old(self).out@.len() as int; let m = (if is_wide { value.wide() } else { value.size() }) as int; let out = final(self).out@;
            r == n && out.len() == n + m + m % 2 && prefix(old(self).out@, out) && value.reads(out.subrange(n, n + m), is_wide)
            && (value.leaf() matches Some(l) ==> leaf_at(out.subrange(n, n + m), l)) && m >= 1 }),
        final(self).shared_keys == old(self).shared_keys, final(self).collection_stack == old(self).collection_stack, final(self).top_collection_closed == old(self).top_collection_closed,
//@after let written
    proof {
        let n = offset as int; let m = (if is_wide { value.wide() } else { value.size() }) as int;
        let o = self.out@;
        assert(o.len() == n + m);
        assert(o.subrange(n, n + m).take(m) =~= o.subrange(n, n + m));
        assert(prefix(old(self).out@, o));
    }
    let ghost o1 = self.out@;
//@before offset as u32
    proof {
        let n = offset as int; let m = (if is_wide { value.wide() } else { value.size() }) as int;
        assert(self.out@.subrange(n, n + m) =~= o1.subrange(n, n + m));
        assert(prefix(old(self).out@, self.out@)) by { assert forall|i: int| 0 <= i < old(self).out@.len() implies old(self).out@[i] == #[trigger] self.out@[i] by { assert(o1[i] == self.out@[i]); } }
    }
//@at start
    proof {
        assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x & !1) == x - x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x >> 1) == x / 2) by (bit_vector);
    }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _push
//@prop C04 C05 C02 C03
//@ret r
//@contract
    requires old(self).out@.len() % 2 == 0, sk_ok(old(self).sk()),
    ensures r.is_ok() == takes_value(old(self).cs()), r.is_ok() ==> pushed(*old(self), *final(self), value), r.is_err() ==> unchanged(*old(self), *final(self)),
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _write_key_inline
//@prop C04 C05 C03 C09
//@ret r
//@contract
    requires takes_key(old(self).cs()), old(self).out@.len() % 2 == 0, sk_ok(old(self).sk()),
    ensures r.is_ok(), final(self).out == old(self).out,
        forall|s: Seq<u8>| #[trigger] dkey_holds(old(self).out@, old(self).sk(), DictKey::Inline(val), s) ==> keyed(*old(self), *final(self), s),
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _write_key_pointer
//@prop C04 C05 C03 C09
//@ret r
//@contract
    requires takes_key(old(self).cs()), old(self).out@.len() % 2 == 0, sk_ok(old(self).sk()), old(self).out@.len() + str_size(encode_utf8(key@).len()) <= pointer::MAX_WIDE,
    ensures r.is_ok(), keyed(*old(self), *final(self), encode_utf8(key@)), final(self).out@.len() <= old(self).out@.len() + str_size(encode_utf8(key@).len()) + 1,
//@after let offset
    proof {
        let s = encode_utf8(key@); let n = str_size(s.len()) as int;
        encode_utf8_valid_utf8(key@);
        assert(self.out@.skip(offset as int) =~= self.out@.subrange(offset as int, self.out@.len() as int));
        assert(prefix(self.out@.subrange(offset as int, offset + n), self.out@.skip(offset as int)));
        lemma_leaf_grow(self.out@.subrange(offset as int, offset + n), self.out@.skip(offset as int), Leaf::Str(s));
        reveal(dkey_holds); reveal(leaf_at);
    }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _write_key
//@prop C04 C05 C03 C09
//@ret r
//@contract
    requires takes_key(old(self).cs()), old(self).out@.len() % 2 == 0, sk_ok(old(self).sk()), old(self).out@.len() + str_size(encode_utf8(key@).len()) <= pointer::MAX_WIDE,
    ensures r.is_ok(), keyed(*old(self), *final(self), encode_utf8(key@)), final(self).out@.len() <= old(self).out@.len() + str_size(encode_utf8(key@).len()) + 1,
//@at start
    proof { encode_utf8_valid_utf8(key@); reveal(dkey_holds); lemma_sk_insert(self.sk(), encode_utf8(key@)); broadcast use axiom_shared_keys; }
//@before return self . _write_key_pointer ( key )
    proof { assert(unchanged(*old(self), *self)); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn write_key
//@prop C04 C05 C03 C09
//@ret r
//@contract
    requires live(*old(self)), room(*old(self), str_size(encode_utf8(key@).len()) + 1),
    ensures forall|w: EView| #[trigger] repr(*old(self), w) ==> r.is_ok() == can_key(w) && (r.is_ok() ==> repr(*final(self), do_key(w, encode_utf8(key@)))),
        r.is_err() ==> unchanged(*old(self), *final(self)), used(*final(self)) <= used(*old(self)) + str_size(encode_utf8(key@).len()) + 1, prefix(old(self).sk(), final(self).sk()), same_sk(*old(self), *final(self)),
//@at start
    proof { lemma_live(*self); lemma_views(*self); lemma_keyed(*self, encode_utf8(key@)); encode_utf8_valid_utf8(key@); reveal(dkey_holds); }
//@before self . _write_key_inline ( val )
    proof { assert(dkey_holds(self.out@, self.sk(), DictKey::Inline(val), encode_utf8(key@))); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn write_value
//@prop C04 C05 C02 C03
//@rewrite value . borrow ( ) => & value
//@ret r
//@contract
    requires live(*old(self)), value.writable(), value.leaf() is Some, room(*old(self), value.size() + 9),
    ensures forall|w: EView| #[trigger] repr(*old(self), w) ==> r.is_ok() == can_value(w) && (r.is_ok() ==> repr(*final(self), do_value(w, Tree::Leaf(value.leaf().unwrap())))),
        r.is_err() ==> unchanged(*old(self), *final(self)), used(*final(self)) <= used(*old(self)) + value.size() + 9, final(self).sk() == old(self).sk(), same_sk(*old(self), *final(self)),
//@at start
    proof { lemma_live(*self); lemma_views(*self); }
//@before self . _push ( val )
    proof { reveal(item_holds); lemma_pushed(*self, val, Tree::Leaf(value.leaf().unwrap())); }
//@before self . _push ( pointer )
    proof { lemma_written(self.out@, self.sk(), offset as int, value.size() as int, pointer, value.leaf().unwrap()); lemma_mid(*old(self), *self); lemma_pushed(*self, pointer, Tree::Leaf(value.leaf().unwrap())); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn begin_array
//@prop C04 C05
//@ret r
//@contract
    requires live(*old(self)),
    ensures forall|w: EView| #[trigger] repr(*old(self), w) ==> r.is_ok() == can_begin(w) && (r.is_ok() ==> repr(*final(self), do_begin(w, Frame::Arr(Seq::empty())))),
        r.is_err() ==> unchanged(*old(self), *final(self)), used(*final(self)) <= used(*old(self)) + 40, final(self).sk() == old(self).sk(), same_sk(*old(self), *final(self)),
//@at start
    proof { lemma_live(*self); lemma_views(*self);
        assert forall|g: Encoder| begun_array(*old(self), g) implies #[trigger] used(g) == used(*old(self)) + 40 by { reveal(coll_holds); lemma_begun(*old(self), g, Frame::Arr(Seq::empty())); }
        assert forall|g: Encoder, w: EView| begun_array(*old(self), g) && repr(*old(self), w) implies #[trigger] repr(g, do_begin(w, Frame::Arr(Seq::empty()))) by { reveal(coll_holds); lemma_begun(*old(self), g, Frame::Arr(Seq::empty())); } }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn begin_dict
//@prop C04 C05
//@ret r
//@contract
    requires live(*old(self)),
    ensures forall|w: EView| #[trigger] repr(*old(self), w) ==> r.is_ok() == can_begin(w) && (r.is_ok() ==> repr(*final(self), do_begin(w, Frame::Dict(Seq::empty(), Seq::empty(), None)))),
        r.is_err() ==> unchanged(*old(self), *final(self)), used(*final(self)) <= used(*old(self)) + 40, final(self).sk() == old(self).sk(), same_sk(*old(self), *final(self)),
//@at start
    proof { lemma_live(*self); lemma_views(*self);
        assert forall|g: Encoder| begun_dict(*old(self), g) implies #[trigger] used(g) == used(*old(self)) + 40 by { reveal(coll_holds); lemma_begun(*old(self), g, Frame::Dict(Seq::empty(), Seq::empty(), None)); }
        assert forall|g: Encoder, w: EView| begun_dict(*old(self), g) && repr(*old(self), w) implies #[trigger] repr(g, do_begin(w, Frame::Dict(Seq::empty(), Seq::empty(), None))) by { reveal(coll_holds); lemma_begun(*old(self), g, Frame::Dict(Seq::empty(), Seq::empty(), None)); } }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _actual_pointer_offset
//@prop C04 C03 C09
//@ret r
//@contract
    requires offset_from_start <= self.out@.len() <= 0xffff_ffff,
    ensures r == self.out@.len() - offset_from_start,
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _first_element_pos
//@prop C04 C03 C09
//@ret r
//@contract
    requires self.out@.len() + header_size < 0xffff_ffff,
    ensures r == self.out@.len() + header_size + header_size % 2,
//@at start
    proof {
        assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x & !1) == x - x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x >> 1) == x / 2) by (bit_vector);
    }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _fix_pointer
//@prop C04 C03 C09
//@ret r
//@contract
    requires pointer.is_ptr(), pointer.ok(), pointer.ptr() <= len <= pointer::MAX_WIDE,
    ensures fixed(pointer, r, len as int),
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _array_should_be_wide
//@prop C04 C02 C03
//@rewrite for $$v in & array . values => for $$v in vx_it: &array.values
//@ret r
//@contract
    requires self.out@.len() + hdr_size(array.values@.len()) + 1 + 4 * array.values@.len() <= pointer::MAX_WIDE,
        forall|i: int| 0 <= i < array.values@.len() ==> stored(#[trigger] array.values@[i], self.out@.len() as int),
    ensures r || forall|i: int| 0 <= i < array.values@.len() ==> fits(#[trigger] array.values@[i], self.out@.len() + hdr_size(array.values@.len()) + hdr_size(array.values@.len()) % 2 + 2 * i),
//@loop 1
    invariant
        self.out@.len() + hdr_size(array.values@.len()) + 1 + 4 * array.values@.len() <= pointer::MAX_WIDE,
        forall|i: int| 0 <= i < array.values@.len() ==> stored(#[trigger] array.values@[i], self.out@.len() as int),
        len == self.out@.len() + hdr_size(array.values@.len()) + hdr_size(array.values@.len()) % 2 + 2 * vx_it.index@,
        forall|i: int| 0 <= i < vx_it.index@ ==> fits(#[trigger] array.values@[i], self.out@.len() + hdr_size(array.values@.len()) + hdr_size(array.values@.len()) % 2 + 2 * i),
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _dict_should_be_wide
//@prop C04 C02 C03 C09
//@rewrite for $$v in & dict . values => for $$v in vx_it: &dict.values
//@ret r
//@contract
    requires self.out@.len() + hdr_size(dict.values@.len()) + 1 + 8 * dict.values@.len() <= pointer::MAX_WIDE,
        forall|i: int| 0 <= i < dict.values@.len() ==> estored(#[trigger] dict.values@[i], self.out@.len() as int),
    ensures r || forall|i: int| 0 <= i < dict.values@.len() ==> efits(#[trigger] dict.values@[i], self.out@.len() + hdr_size(dict.values@.len()) + hdr_size(dict.values@.len()) % 2 + 4 * i),
//@loop 1
    invariant
        self.out@.len() + hdr_size(dict.values@.len()) + 1 + 8 * dict.values@.len() <= pointer::MAX_WIDE,
        forall|i: int| 0 <= i < dict.values@.len() ==> estored(#[trigger] dict.values@[i], self.out@.len() as int),
        len == self.out@.len() + hdr_size(dict.values@.len()) + hdr_size(dict.values@.len()) % 2 + 4 * vx_it.index@,
        forall|i: int| 0 <= i < vx_it.index@ ==> efits(#[trigger] dict.values@[i], self.out@.len() + hdr_size(dict.values@.len()) + hdr_size(dict.values@.len()) % 2 + 4 * i),
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _fix_array_pointers
//@prop C04 C03
//@rewrite for $$e in & mut array . values { => for vx_i in 0..array.values.len() { let $$e = &mut array.values[vx_i];
//@contract
    requires self.out@.len() + 4 * old(array).values@.len() <= pointer::MAX_WIDE,
        forall|i: int| 0 <= i < old(array).values@.len() ==> stored(#[trigger] old(array).values@[i], self.out@.len() as int),
    ensures final(array).values@.len() == old(array).values@.len(),
        forall|i: int| 0 <= i < final(array).values@.len() ==> fixed(old(array).values@[i], #[trigger] final(array).values@[i], self.out@.len() + spos(i, is_wide)),
//@loop 1
    invariant
        self.out@.len() + 4 * old(array).values@.len() <= pointer::MAX_WIDE, array.values@.len() == old(array).values@.len(),
        forall|i: int| 0 <= i < old(array).values@.len() ==> stored(#[trigger] old(array).values@[i], self.out@.len() as int),
        len == self.out@.len() + spos(vx_i as int, is_wide),
        forall|i: int| 0 <= i < vx_i ==> fixed(old(array).values@[i], #[trigger] array.values@[i], self.out@.len() + spos(i, is_wide)),
        forall|i: int| vx_i <= i < array.values@.len() ==> #[trigger] array.values@[i] == old(array).values@[i],
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _fix_dict_pointers
//@prop C04 C03 C09
//@rewrite for $$e in & mut dict . values { => for vx_i in 0..dict.values.len() { let $$e = &mut dict.values[vx_i];
//@contract
    requires self.out@.len() + 8 * old(dict).values@.len() <= pointer::MAX_WIDE,
        forall|i: int| 0 <= i < old(dict).values@.len() ==> estored(#[trigger] old(dict).values@[i], self.out@.len() as int),
    ensures final(dict).values@.len() == old(dict).values@.len(),
        forall|i: int| 0 <= i < final(dict).values@.len() ==> efixed(old(dict).values@[i], #[trigger] final(dict).values@[i], self.out@.len() + epos(i, is_wide), is_wide),
//@loop 1
    invariant
        self.out@.len() + 8 * old(dict).values@.len() <= pointer::MAX_WIDE, dict.values@.len() == old(dict).values@.len(),
        forall|i: int| 0 <= i < old(dict).values@.len() ==> estored(#[trigger] old(dict).values@[i], self.out@.len() as int),
        len == self.out@.len() + epos(vx_i as int, is_wide),
        forall|i: int| 0 <= i < vx_i ==> efixed(old(dict).values@[i], #[trigger] dict.values@[i], self.out@.len() + epos(i, is_wide), is_wide),
        forall|i: int| vx_i <= i < dict.values@.len() ==> #[trigger] dict.values@[i] == old(dict).values@[i],
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn dict_key_cmp
//@prop C04 C09
//@rewrite? $$x . as_ref ( ) => vx_unbox($$x)
//@rewrite? value1 . cmp ( value2 ) => vx_u16_cmp(value1, value2)
//@rewrite? $$x . cmp ( $$y ) => vx_str_cmp($$x, $$y)
//@ret r
//@contract
    requires key_ok(*value1), key_ok(*value2),
    ensures ord_int(r) == key_cmp(dkey_s(*value1), dkey_s(*value2)),
//@at start
    proof { reveal(dkey_s); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _finished_collection
//@attr #[verifier::spinoff_prover]
//@prop C04 C05 C02 C03 C09
//@ret r
//@contract
    requires old(self).out@.len() % 2 == 0, sk_ok(old(self).sk()), offset_from_start % 2 == 0, offset_from_start + 2 <= old(self).out@.len() <= pointer::MAX_WIDE - 8,
        kind(old(self).out@[offset_from_start as int]) != ValueType::Pointer, !top_waits(old(self).cs()),
    ensures r.is_ok(), ended(*old(self), *final(self), offset_from_start as int),
//@at start
    let ghost m = self.out@;
    proof { lemma_waits(self.cs()); }
//@after self . top_collection_closed = true
    proof {
        let d = self.out@; let off = offset_from_start as int;
        if m.len() - off <= pointer::MAX_NARROW { lemma_root_narrow(m, d, off); } else { lemma_prefix3(m, o2, d); lemma_root_wide(m, o2, d, off); }
        assert(self.cs() =~= old(self).cs());
        assert(rooted(*old(self), *self, offset_from_start as int)) by { reveal(rooted); }
    }
//@before Ok ( ( ) )
    proof {
        if old(self).cs().len() > 0 {
            let v = match self.cs().last() { Collection::Array(a) => a.values@.last(), Collection::Dict(d) => d.values@.last().val };
            assert(v.is_ptr() && v.ok() && v.ptr() == offset_from_start);
            assert(top_push(old(self).cs().last(), v, self.cs().last()));
            lemma_push_frame(*old(self), *self, v);
        }
    }
//@before self . _write ( & root , false , false ) ;
    let ghost o2 = self.out@;
    proof { assert(o2.len() == if m.len() - offset_from_start <= pointer::MAX_NARROW { m.len() } else { m.len() + 4 }); assert(o2.len() % 2 == 0); assert(root.size() == 2); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn end_array
//@attr #[verifier::spinoff_prover]
//@prop C04 C05 C02 C03
//@rewrite for $$v in & array . values => for $$v in vx_it: &array.values
//@ret r
//@contract
    requires live(*old(self)), room(*old(self), 0),
    ensures forall|w: EView| #[trigger] repr(*old(self), w) ==> r.is_ok() == can_end_array(w) && (r.is_ok() ==> repr(*final(self), do_end(w))),
        r.is_err() ==> unchanged(*old(self), *final(self)), final(self).sk() == old(self).sk(), same_sk(*old(self), *final(self)), used(*final(self)) <= used(*old(self)),
//@at start
    proof { lemma_live(*self); lemma_views(*self); if self.cs().len() > 0 { lemma_top_stored(*self); lemma_enc_len_u64(tvals(self.cs()).len() as u64); lemma_need_pos(self.cs().drop_last()); } }
    let ghost e = *self;
    let ghost vs = tvals(self.cs());
    let ghost n = vs.len();
//@loop 1
    invariant
        vs.len() == n, n == array.values@.len(), popped(e, *self), e.out@.len() + 13 + 8 * n <= pointer::MAX_WIDE, self.out@.len() % 2 == 0, self.top_collection_closed == e.top_collection_closed,
        self.shared_keys == e.shared_keys, hdr_size(n) <= 12, offset == e.out@.len(),
        forall|i: int| 0 <= i < n ==> fixed(#[trigger] vs[i], array.values@[i], c_head(e.out@, n) + spos(i, is_wide)),
        forall|i: int| 0 <= i < n ==> stored(#[trigger] vs[i], e.out@.len() as int),
        is_wide || forall|i: int| 0 <= i < n ==> fits(#[trigger] vs[i], c_head(e.out@, n) + 2 * i),
        c_head(e.out@, n) <= self.out@.len(), self.out@.subrange(e.out@.len() as int, (e.out@.len() + hdr_size(n)) as int) == hdr_bytes(0x60u8, n, is_wide),
        slots_done(self.out@, c_head(e.out@, n), is_wide, vs, vx_it.index@ as int),
//@at beforeloop 1
    proof { reveal(slots_done); }
//@at loopstart 1
    let ghost o = self.out@;
    proof { let k = vx_it.index@ as int; let f = array.values@[k]; assert(fixed(vs[k], f, c_head(e.out@, n) + spos(k, is_wide))); assert(stored(vs[k], e.out@.len() as int)); reveal(slots_done);
        assert(is_wide || fits(vs[k], c_head(e.out@, n) + 2 * k)); }
//@at loopend 1
    proof { let k = vx_it.index@ as int;
        lemma_slots_done(o, self.out@, c_head(e.out@, n), is_wide, vs, array.values@[k], k);
        lemma_sub_prefix(o, self.out@, e.out@.len() as int, (e.out@.len() + hdr_size(n)) as int);
    }
//@before self . _finished_collection
    let ghost m = *self;
    proof { reveal(slots_done); lemma_closed_array(e.out@, self.out@, self.sk(), vs, is_wide);
        assert forall|f: Frame| #[trigger] coll_holds(e.out@, e.sk(), e.cs().last(), f) implies holds(m.out@, m.sk(), e.out@.len() as int, m.out@.len() - e.out@.len(), tree_of(f)) by { reveal(coll_holds); }
    }
//@before Ok ( ( ) )
    proof { lemma_end(e, m, *self); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn end_dict
//@attr #[verifier::spinoff_prover]
//@prop C04 C05 C02 C03 C09
//@rewrite for $$v in & dict . values => for $$v in vx_it: &dict.values
//@rewrite? dict . values . sort_unstable_by ( | $$a , $$b | $$e ) => vx_sort(&mut dict.values, |$$a: &DictElement, $$b: &DictElement| -> (vx_o: Ordering) requires key_ok($$a.key), key_ok($$b.key) ensures ord_int(vx_o) == elem_cmp(*$$a, *$$b) { $$e })
//@rewrite? dict . values . sort_by ( | $$a , $$b | $$e ) => vx_sort(&mut dict.values, |$$a: &DictElement, $$b: &DictElement| -> (vx_o: Ordering) requires key_ok($$a.key), key_ok($$b.key) ensures ord_int(vx_o) == elem_cmp(*$$a, *$$b) { $$e })
//@ret r
//@contract
    requires live(*old(self)), room(*old(self), 0),
    ensures forall|w: EView| #[trigger] repr(*old(self), w) ==> r.is_ok() == can_end_dict(w) && (r.is_ok() ==> repr(*final(self), do_end(w))),
        r.is_err() ==> unchanged(*old(self), *final(self)), final(self).sk() == old(self).sk(), same_sk(*old(self), *final(self)), used(*final(self)) <= used(*old(self)),
//@at start
    proof { lemma_live(*self); lemma_views(*self); if self.cs().len() > 0 { lemma_top_stored(*self); lemma_enc_len_u64(tdict(self.cs()).len() as u64); lemma_need_pos(self.cs().drop_last()); } }
    let ghost e = *self;
    let ghost es = tdict(self.cs());
    let ghost n = es.len();
//@before let is_wide
    let ghost fs = dict.values@;
    proof { lemma_sorted_len(es, fs); assert forall|i: int| 0 <= i < n implies estored(#[trigger] fs[i], e.out@.len() as int) by { lemma_sorted_elem(es, fs, i); } }
//@loop 1
    invariant
        fs.len() == n, n == dict.values@.len(), popped(e, *self), e.out@.len() + 13 + 8 * n <= pointer::MAX_WIDE, self.out@.len() % 2 == 0, self.top_collection_closed == e.top_collection_closed,
        self.shared_keys == e.shared_keys, hdr_size(n) <= 12, offset == e.out@.len(),
        eplan(fs, dict.values@, e.out@.len() as int, c_head(e.out@, n), is_wide),
        c_head(e.out@, n) <= self.out@.len(), self.out@.subrange(e.out@.len() as int, (e.out@.len() + hdr_size(n)) as int) == hdr_bytes(0x70u8, n, is_wide),
        elems_done(self.out@, c_head(e.out@, n), is_wide, fs, vx_it.index@ as int),
//@at beforeloop 1
    proof { reveal(elems_done); reveal(eplan); }
//@at loopstart 1
    let ghost o = self.out@;
    proof { lemma_shared_all(); let k = vx_it.index@ as int; let f = dict.values@[k]; lemma_eplan(fs, dict.values@, e.out@.len() as int, c_head(e.out@, n), is_wide, k); lemma_elems_len(o, c_head(e.out@, n), is_wide, fs, k); }
//@at loopend 1
    proof { let k = vx_it.index@ as int;
        lemma_elem_step(e.out@, o, o1, self.out@, c_head(e.out@, n), n, is_wide, fs, dict.values@, k);
    }
//@before self . _write ( & elem . val , is_wide , false ) ;
    let ghost o1 = self.out@;
    proof { let k = vx_it.index@ as int; let f = dict.values@[k]; assert(o1.len() == o.len() + width(is_wide)); assert(prefix(o, o1)); assert(kwritten(f.key, o1.subrange(o.len() as int, o.len() + width(is_wide)), is_wide)); }
//@before self . _finished_collection
    let ghost m = *self;
    proof { reveal(elems_done); reveal(dict_out); lemma_closed_dict(e.out@, self.out@, self.sk(), es, fs, is_wide);
        assert forall|f: Frame| #[trigger] coll_holds(e.out@, e.sk(), e.cs().last(), f) implies holds(m.out@, m.sk(), e.out@.len() as int, m.out@.len() - e.out@.len(), tree_of(f)) by { reveal(coll_holds); }
    }
//@before Ok ( ( ) )
    proof { lemma_end(e, m, *self); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn _end
//@prop C04 C05
//@rewrite while let Some ( $$c ) = $$e { => loop { let Some($$c) = $$e else { break };
//@contract
    requires live(*old(self)), room(*old(self), 0),
    ensures forall|w: EView| #[trigger] repr(*old(self), w) ==> repr(*final(self), do_finish(w)), final(self).sk() == old(self).sk(), same_sk(*old(self), *final(self)), used(*final(self)) <= used(*old(self)), final(self).cs().len() == 0,
//@at start
    let ghost e = *self;
    proof { lemma_fin_refl(e); }
//@loop 1
    invariant self.sk() == e.sk(), same_sk(e, *self), fin_rel(e, *self), live(e), live(*self), room(*self, 0), used(*self) <= used(e),
    ensures self.sk() == e.sk(), same_sk(e, *self), fin_rel(e, *self), live(e), used(*self) <= used(e), self.cs().len() == 0
    decreases self.cs().len()
//@at loopstart 1
    let ghost g = *self;
    proof { lemma_views(g); }
//@rewrite? self . end_array ( ) => ({ proof { assert(self.cs() =~= g.cs()); lemma_drop(g, *self); } self.end_array() })
//@rewrite? self . end_dict ( ) => ({ proof { assert(dropped(g, *self)); lemma_drop(g, *self); } self.end_dict() })
//@at loopend 1
    proof { lemma_fin_step(e, g, *self); }
//@at afterloop 1
    proof { lemma_fin_done(e, *self); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn finish
//@prop C04 C05
//@sig ( mut self ) => (self)
//@rewrite self . => vx_self .
//@ret r
//@contract
    requires live(self), room(self, 0),
    ensures forall|w: EView| #[trigger] repr(self, w) ==> match do_finish(w).done { Some(t) => doc_holds(r@, self.sk(), t), None => w.frames.len() == 0 },
//@at start
    let mut vx_self = self;
//@after vx_self . _end
    proof { lemma_finished(self, vx_self); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn finish_scoped
//@prop C04 C05 C12
//@sig ( mut self ) => (self)
//@sig Arc < Scope > => Scoped
//@rewrite self . => vx_self .
//@rewrite = $$x . map ( Arc :: new ) => = vx_arc($$x)
//@rewrite Scope :: new ( $$a , $$b ) => vx_scope($$a, $$b)
//@ret r
//@contract
    requires live(self), room(self, 0),
    ensures match self.shared_keys { Some(_) => r.keys() matches Some(k) && k@ == self.sk(), None => r.keys() is None },
        forall|w: EView| #[trigger] repr(self, w) ==> match do_finish(w).done { Some(t) => doc_holds(r.data(), self.sk(), t), None => w.frames.len() == 0 },
//@at start
    let mut vx_self = self;
//@after vx_self . _end
    proof { lemma_finished(self, vx_self); }
//@end
//@extract src/encoder/mod.rs impl Encoder :: fn finish_value
//@prop C04 C05 C12
//@sig AllocedValue => Owned
//@rewrite? # [ cfg ( not ( debug_assertions ) ) ] unsafe { $$a } # [ cfg ( debug_assertions ) ] $$b . unwrap ( ) => if vx_release() { $$a } else { vx_unwrap($$b) }
//@ret r
//@contract
    requires live(self), room(self, 0), exists|w: EView| #[trigger] repr(self, w) && do_finish(w).done is Some,
    ensures root(r.data()) == Some(r.at()),
        forall|w: EView| #[trigger] repr(self, w) ==> (do_finish(w).done matches Some(t) ==> doc_holds(r.data(), self.sk(), t)),
//@after let vec = self . finish ( )
    proof {
        let w = choose|w: EView| #[trigger] repr(self, w) && do_finish(w).done is Some;
        let (p, n) = root(vec@).unwrap();
        lemma_holds_valid(vec@, self.sk(), p, n, do_finish(w).done.unwrap());
    }
//@end
}
pub open spec fn begun_array(e: Encoder, g: Encoder) -> bool { unchanged_but(e, g) && (g.cs().last() matches Collection::Array(a) && a.values@.len() == 0) && !e.top_collection_closed && !top_waits(e.cs()) }
pub open spec fn begun_dict(e: Encoder, g: Encoder) -> bool { unchanged_but(e, g) && (g.cs().last() matches Collection::Dict(a) && a.values@.len() == 0 && a.next_key is None) && !e.top_collection_closed && !top_waits(e.cs()) }
