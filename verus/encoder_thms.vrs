// ---------------------------------------------------------------- what the contracts add up to
/// one call on an encoder
pub enum Op<'a> {
    Null, Undefined, Bool(bool), Int(i64), Uint(u64), Float(f32), Double(f64), Str(&'a str), Data(&'a [u8]),
    Key(&'a str), BeginArray(usize), BeginDict, EndArray, EndDict,
}
pub open spec fn op_leaf(op: Op) -> Leaf {
    match op {
        Op::Undefined => Leaf::Undefined, Op::Bool(b) => Leaf::Bool(b), Op::Int(x) => Leaf::Num(x as int), Op::Uint(x) => Leaf::Num(x as int),
        Op::Float(x) => Leaf::Float(x), Op::Double(x) => Leaf::Double(x), Op::Str(s) => Leaf::Str(encode_utf8(s@)), Op::Data(s) => Leaf::Data(s@), _ => Leaf::Null,
    }
}
/// the protocol: which calls are accepted
pub open spec fn op_can(w: EView, op: Op) -> bool {
    match op {
        Op::Key(_) => can_key(w), Op::BeginArray(_) | Op::BeginDict => can_begin(w), Op::EndArray => can_end_array(w), Op::EndDict => can_end_dict(w), _ => can_value(w),
    }
}
pub open spec fn op_do(w: EView, op: Op) -> EView {
    match op {
        Op::Key(k) => do_key(w, encode_utf8(k@)), Op::BeginArray(_) => do_begin(w, Frame::Arr(Seq::empty())),
        Op::BeginDict => do_begin(w, Frame::Dict(Seq::empty(), Seq::empty(), None)), Op::EndArray | Op::EndDict => do_end(w),
        _ => do_value(w, Tree::Leaf(op_leaf(op))),
    }
}
/// an upper bound of the bytes it takes
pub open spec fn op_cost(op: Op) -> nat {
    match op {
        Op::Str(s) => encode_utf8(s@).len() + 40, Op::Data(s) => s@.len() + 40, Op::Key(k) => encode_utf8(k@).len() + 40, _ => 40,
    }
}
pub open spec fn cost(ops: Seq<Op>) -> nat decreases ops.len() { if ops.len() == 0 { 0 } else { cost(ops.drop_last()) + op_cost(ops.last()) } }
/// the accepted calls alone
pub open spec fn model(w: EView, ops: Seq<Op>) -> EView decreases ops.len() {
    if ops.len() == 0 { w } else { let u = model(w, ops.drop_last()); if op_can(u, ops.last()) { op_do(u, ops.last()) } else { u } }
}
pub proof fn lemma_cost_take(ops: Seq<Op>, i: int)
    requires 0 <= i <= ops.len()
    ensures cost(ops.take(i)) <= cost(ops)
    decreases ops.len() - i
{
    if i < ops.len() { lemma_cost_take(ops, i + 1); assert(ops.take(i + 1).drop_last() =~= ops.take(i)); } else { assert(ops.take(i) =~= ops); }
}
//@thm C04 C05
fn thm_call(e: &mut Encoder, op: &Op) -> (r: bool)
    requires live(*old(e)), room(*old(e), op_cost(*op)),
    ensures forall|w: EView| #[trigger] repr(*old(e), w) ==> r == op_can(w, *op) && repr(*final(e), if r { op_do(w, *op) } else { w }),
        used(*final(e)) <= used(*old(e)) + op_cost(*op), live(*final(e)), prefix(old(e).sk(), final(e).sk()),
{
    proof { lemma_same(*e); match *op { Op::Str(s) => { axiom_str_len(s); lemma_enc_len_u64(encode_utf8(s@).len() as u64); } Op::Key(s) => { axiom_str_len(s); lemma_enc_len_u64(encode_utf8(s@).len() as u64); }
        Op::Data(s) => { axiom_slice_len(s); lemma_enc_len_u64(s@.len() as u64); } _ => {} } }
    let ghost g = *e;
    let r = match op {
        Op::Null => e.write_value(NullValue), Op::Undefined => e.write_value(UndefinedValue), Op::Bool(x) => e.write_value(*x), Op::Int(x) => e.write_value(*x), Op::Uint(x) => e.write_value(*x),
        Op::Float(x) => e.write_value(*x), Op::Double(x) => e.write_value(*x), Op::Str(x) => e.write_value(*x), Op::Data(x) => e.write_value(*x),
        Op::Key(k) => e.write_key(*k), Op::BeginArray(n) => e.begin_array(*n), Op::BeginDict => e.begin_dict(), Op::EndArray => e.end_array(), Op::EndDict => e.end_dict(),
    };
    let k = r.is_ok();
    proof {
        let w0 = choose|w: EView| repr(g, w);
        assert(repr(*e, if k { op_do(w0, *op) } else { w0 }));
    }
    k
}
/// C05: every sequence of calls; C04: and the document which comes out of it
//@thm C04 C05
fn thm_session(ops: &Vec<Op>, start: Encoder, Ghost(w): Ghost<EView>) -> (r: (Vec<bool>, Vec<u8>, Ghost<Seq<Seq<u8>>>))
    requires repr(start, w), used(start) + cost(ops@) <= pointer::MAX_WIDE
    ensures r.0@.len() == ops@.len(), forall|i: int| 0 <= i < ops@.len() ==> #[trigger] r.0@[i] == op_can(model(w, ops@.take(i)), ops@[i]),
        prefix(start.sk(), r.2@), sk_ok(r.2@),
        match do_finish(model(w, ops@)).done {
            // the tree made by the accepted calls, and it passes validation
            Some(t) => doc_holds(r.1@, r.2@, t) && r.1@.len() % 2 == 0 && (root(r.1@) matches Some((p, n)) && valid(r.1@, p, n, false)),
            None => model(w, ops@).frames.len() == 0,
        },
{
    let mut e = start;
    let mut oks: Vec<bool> = Vec::new();
    let mut i: usize = 0;
    proof { assert(ops@.take(0) =~= Seq::empty()); assert(prefix(start.sk(), e.sk())); lemma_top(e, w); }
    while i < ops.len()
        invariant i <= ops@.len(), repr(e, model(w, ops@.take(i as int))), used(e) <= used(start) + cost(ops@.take(i as int)), used(start) + cost(ops@) <= pointer::MAX_WIDE,
            oks@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] oks@[j] == op_can(model(w, ops@.take(j)), ops@[j]), prefix(start.sk(), e.sk()),
        decreases ops@.len() - i
    {
        let ghost u = model(w, ops@.take(i as int)); let ghost g = e;
        proof {
            assert(live(e));
            lemma_cost_take(ops@, i + 1);
            assert(ops@.take(i + 1).drop_last() =~= ops@.take(i as int));
            assert(ops@.take(i + 1).last() == ops@[i as int]);
        }
        let k = thm_call(&mut e, &ops[i]);
        oks.push(k);
        proof { lemma_prefix3s(start.sk(), g.sk(), e.sk()); assert(k == op_can(u, ops@[i as int])); }
        i += 1;
    }
    proof { assert(ops@.take(i as int) =~= ops@); lemma_cost_take(ops@, i as int); assert(live(e)); lemma_top(e, model(w, ops@)); }
    let ghost sk = e.sk();
    let out = e.finish();
    proof {
        match do_finish(model(w, ops@)).done {
            Some(t) => { let r = root(out@).unwrap(); lemma_holds_valid(out@, sk, r.0, r.1, t); }
            None => {}
        }
    }
    (oks, out, Ghost(sk))
}
/// from nothing
//@thm C04 C05
fn thm_new(ops: &Vec<Op>) -> (r: (Vec<bool>, Vec<u8>, Ghost<Seq<Seq<u8>>>))
    requires 8 + cost(ops@) <= pointer::MAX_WIDE
    ensures ({ let w = EView { frames: Seq::empty(), done: None };
        (forall|i: int| 0 <= i < ops@.len() ==> #[trigger] r.0@[i] == op_can(model(w, ops@.take(i)), ops@[i]))
        && (do_finish(model(w, ops@)).done matches Some(t) ==> doc_holds(r.1@, r.2@, t)) })
{
    let e = Encoder::new();
    thm_session(ops, e, Ghost(EView { frames: Seq::empty(), done: None }))
}
/// after any bytes, with any shared keys
//@thm C04 C05
fn thm_new_to_vec(ops: &Vec<Op>, out: Vec<u8>, sk: SharedKeys) -> (r: (Vec<bool>, Vec<u8>, Ghost<Seq<Seq<u8>>>))
    requires out@.len() + 10 + cost(ops@) <= pointer::MAX_WIDE, sk_ok(sk@)
    ensures ({ let w = EView { frames: Seq::empty(), done: None };
        (forall|i: int| 0 <= i < ops@.len() ==> #[trigger] r.0@[i] == op_can(model(w, ops@.take(i)), ops@[i]))
        && prefix(sk@, r.2@) && (do_finish(model(w, ops@)).done matches Some(t) ==> doc_holds(r.1@, r.2@, t)) })
{
    let ghost w = EView { frames: Seq::empty(), done: None };
    let mut e = Encoder::new_to_vec(out);
    proof { assert(live(e)); assert(prefix(e.sk(), sk@)); }
    let ghost g = e;
    e.set_shared_keys(sk);
    proof { assert(used(e) == used(g)); }
    thm_session(ops, e, Ghost(w))
}
