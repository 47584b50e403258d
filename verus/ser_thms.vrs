// ---------------------------------------------------------------- what the callbacks add up to: these are serde's own implementations for Vec and map,
// and what #[derive(Serialize)] generates for structs and enum variants, over the contracts above
pub open spec fn costs<T: Serialize>(xs: Seq<T>) -> nat decreases xs.len() { if xs.len() == 0 { 0 } else { costs(xs.drop_last()) + xs.last().cost() } }
pub open spec fn trees<T: Serialize>(xs: Seq<T>) -> Seq<Tree> { Seq::new(xs.len(), |i: int| xs[i].tree().unwrap()) }
pub open spec fn all_trees<T: Serialize>(xs: Seq<T>) -> bool { forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).tree() is Some }
pub proof fn lemma_costs<T: Serialize>(xs: Seq<T>, i: int)
    requires 0 <= i <= xs.len()
    ensures costs(xs.take(i)) <= costs(xs), i < xs.len() ==> costs(xs.take(i + 1)) == costs(xs.take(i)) + xs[i].cost() && costs(xs.take(i + 1)) <= costs(xs),
    decreases xs.len() - i
{
    if i < xs.len() { assert(xs.take(i + 1).drop_last() =~= xs.take(i)); lemma_costs(xs, i + 1); } else { assert(xs.take(i) =~= xs); }
}
pub proof fn lemma_trees<T: Serialize>(xs: Seq<T>, i: int)
    requires 0 <= i < xs.len()
    ensures trees(xs.take(i + 1)) == trees(xs.take(i)).push(xs[i].tree().unwrap())
{
    assert(trees(xs.take(i + 1)) =~= trees(xs.take(i)).push(xs[i].tree().unwrap()));
}
/// C15: a sequence is written as an array of what its elements stand for, in order
//@thm C15
fn thm_seq<T: Serialize>(xs: &Vec<T>, s: &mut Serializer) -> (r: Result<()>)
    requires live(old(s).encoder), room(old(s).encoder, 40 + costs(xs@))
    ensures put(old(s).encoder, final(s).encoder, r.is_ok(), if all_trees(xs@) { Some(Tree::Arr(trees(xs@))) } else { None }, 40 + costs(xs@))
{
    let ghost e = s.encoder;
    proof { lemma_frames(); reveal(put); reveal(opened); reveal(closed_arr); lemma_open(e); assert(trees(xs@.take(0)) =~= Seq::empty()); assert(xs@.take(xs@.len() as int) =~= xs@); }
    s.serialize_seq(Some(xs.len()))?;
    for i in 0..xs.len()
        invariant live(e), room(e, 40 + costs(xs@)), live(s.encoder), used(s.encoder) <= used(e) + 40 + costs(xs@.take(i as int)), prefix(e.sk(), s.encoder.sk()), same_sk(e, s.encoder),
            forall|w: EView| #[trigger] repr(e, w) ==> can_begin(w) && repr(s.encoder, under(w, s1(Frame::Arr(trees(xs@.take(i as int)))))),
            forall|j: int| 0 <= j < i ==> (#[trigger] xs@[j]).tree() is Some,
    {
        proof { lemma_frames(); reveal(put); lemma_costs(xs@, i as int); lemma_trees(xs@, i as int); lemma_open(s.encoder); lemma_open(e); }
        s.seq_element(&xs[i])?;
    }
    proof { lemma_costs(xs@, xs@.len() as int); }
    s.seq_end()
}
pub open spec fn map_costs<K: Serialize, V: Serialize>(xs: Seq<(K, V)>) -> nat decreases xs.len() { if xs.len() == 0 { 0 } else { map_costs(xs.drop_last()) + xs.last().0.key_cost() + xs.last().1.cost() } }
pub open spec fn map_keys<K: Serialize, V: Serialize>(xs: Seq<(K, V)>) -> Seq<Seq<u8>> { Seq::new(xs.len(), |i: int| xs[i].0.key().unwrap()) }
pub open spec fn map_trees<K: Serialize, V: Serialize>(xs: Seq<(K, V)>) -> Seq<Tree> { Seq::new(xs.len(), |i: int| xs[i].1.tree().unwrap()) }
pub open spec fn map_ok<K: Serialize, V: Serialize>(xs: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).0.key() is Some && xs[i].1.tree() is Some }
pub proof fn lemma_map<K: Serialize, V: Serialize>(xs: Seq<(K, V)>, i: int)
    requires 0 <= i <= xs.len()
    ensures map_costs(xs.take(i)) <= map_costs(xs), i < xs.len() ==> map_costs(xs.take(i + 1)) == map_costs(xs.take(i)) + xs[i].0.key_cost() + xs[i].1.cost() && map_costs(xs.take(i + 1)) <= map_costs(xs)
        && map_keys(xs.take(i + 1)) == map_keys(xs.take(i)).push(xs[i].0.key().unwrap()) && map_trees(xs.take(i + 1)) == map_trees(xs.take(i)).push(xs[i].1.tree().unwrap()),
    decreases xs.len() - i
{
    if i < xs.len() {
        assert(xs.take(i + 1).drop_last() =~= xs.take(i)); lemma_map(xs, i + 1);
        assert(map_keys(xs.take(i + 1)) =~= map_keys(xs.take(i)).push(xs[i].0.key().unwrap()));
        assert(map_trees(xs.take(i + 1)) =~= map_trees(xs.take(i)).push(xs[i].1.tree().unwrap()));
    } else { assert(xs.take(i) =~= xs); }
}
/// C15: a map is written as a dict of its entries; it fails iff some key is not a string
//@thm C15
fn thm_map<K: Serialize, V: Serialize>(xs: &Vec<(K, V)>, s: &mut Serializer) -> (r: Result<()>)
    requires live(old(s).encoder), room(old(s).encoder, 40 + map_costs(xs@))
    ensures put(old(s).encoder, final(s).encoder, r.is_ok(), if map_ok(xs@) { Some(Tree::Dict(map_keys(xs@), map_trees(xs@))) } else { None }, 40 + map_costs(xs@))
{
    let ghost e = s.encoder;
    proof { lemma_frames(); reveal(put); reveal(opened); reveal(closed_dict); lemma_open(e); assert(map_keys(xs@.take(0)) =~= Seq::empty()); assert(map_trees(xs@.take(0)) =~= Seq::empty()); assert(xs@.take(xs@.len() as int) =~= xs@); }
    s.serialize_map(Some(xs.len()))?;
    for i in 0..xs.len()
        invariant live(e), room(e, 40 + map_costs(xs@)), live(s.encoder), used(s.encoder) <= used(e) + 40 + map_costs(xs@.take(i as int)), prefix(e.sk(), s.encoder.sk()), same_sk(e, s.encoder),
            forall|w: EView| #[trigger] repr(e, w) ==> can_begin(w) && repr(s.encoder, under(w, s1(Frame::Dict(map_keys(xs@.take(i as int)), map_trees(xs@.take(i as int)), None)))),
            forall|j: int| 0 <= j < i ==> (#[trigger] xs@[j]).0.key() is Some && xs@[j].1.tree() is Some,
    {
        proof { lemma_frames(); reveal(put); reveal(put_key); lemma_map(xs@, i as int); lemma_open(s.encoder); lemma_open(e); }
        s.map_key(&xs[i].0)?;
        s.map_value(&xs[i].1)?;
    }
    proof { lemma_map(xs@, xs@.len() as int); }
    s.map_end()
}
/// C15: a struct is a dict from its field names
//@thm C15
fn thm_struct<A: Serialize, B: Serialize>(n: &'static str, f: &'static str, a: &A, g: &'static str, b: &B, s: &mut Serializer) -> (r: Result<()>)
    requires live(old(s).encoder), room(old(s).encoder, 40 + lsize(f@) + a.cost() + lsize(g@) + b.cost())
    ensures put(old(s).encoder, final(s).encoder, r.is_ok(), if a.tree() is Some && b.tree() is Some { Some(Tree::Dict(s2(encode_utf8(f@), encode_utf8(g@)), s2(a.tree().unwrap(), b.tree().unwrap()))) } else { None },
        40 + lsize(f@) + a.cost() + lsize(g@) + b.cost())
{
    proof { lemma_frames(); reveal(put); reveal(opened); reveal(put_field); reveal(closed_dict); lemma_open(s.encoder); }
    s.serialize_struct(n, 2)?;
    s.struct_field(f, a)?;
    s.struct_field(g, b)?;
    s.struct_end()
}
/// C15: a tuple variant is [name, [fields]]
//@thm C15
fn thm_tuple_variant<A: Serialize, B: Serialize>(n: &'static str, i: u32, v: &'static str, a: &A, b: &B, s: &mut Serializer) -> (r: Result<()>)
    requires live(old(s).encoder), room(old(s).encoder, 80 + lsize(v@) + a.cost() + b.cost())
    ensures put(old(s).encoder, final(s).encoder, r.is_ok(), if a.tree() is Some && b.tree() is Some { Some(Tree::Arr(s2(ltree(v@), Tree::Arr(s2(a.tree().unwrap(), b.tree().unwrap()))))) } else { None },
        80 + lsize(v@) + a.cost() + b.cost())
{
    proof { lemma_frames(); reveal(put); reveal(opened); reveal(closed_arr_arr); lemma_open(s.encoder); }
    s.serialize_tuple_variant(n, i, v, 2)?;
    proof { lemma_open(s.encoder); }
    s.tuple_variant_field(a)?;
    proof { lemma_open(s.encoder); }
    s.tuple_variant_field(b)?;
    s.tuple_variant_end()
}
/// C15: a struct variant is [name, {fields}]
//@thm C15
fn thm_struct_variant<A: Serialize, B: Serialize>(n: &'static str, i: u32, v: &'static str, f: &'static str, a: &A, g: &'static str, b: &B, s: &mut Serializer) -> (r: Result<()>)
    requires live(old(s).encoder), room(old(s).encoder, 80 + lsize(v@) + lsize(f@) + a.cost() + lsize(g@) + b.cost())
    ensures put(old(s).encoder, final(s).encoder, r.is_ok(), if a.tree() is Some && b.tree() is Some { Some(Tree::Arr(s2(ltree(v@), Tree::Dict(s2(encode_utf8(f@), encode_utf8(g@)), s2(a.tree().unwrap(), b.tree().unwrap()))))) } else { None },
        80 + lsize(v@) + lsize(f@) + a.cost() + lsize(g@) + b.cost())
{
    proof { lemma_frames(); reveal(put); reveal(opened); reveal(put_field); reveal(closed_dict_arr); lemma_open(s.encoder); }
    s.serialize_struct_variant(n, i, v, 2)?;
    s.struct_variant_field(f, a)?;
    s.struct_variant_field(g, b)?;
    s.struct_variant_end()
}
// implementations of the trait's contract, as serde has them: the contract can be met
impl Serialize for i64 {
    open spec fn tree(&self) -> Option<Tree> { Some(Tree::Leaf(Leaf::Num(*self as int))) }
    open spec fn key(&self) -> Option<Seq<u8>> { None }
    open spec fn cost(&self) -> nat { (*self).size() + 9 }
    open spec fn key_cost(&self) -> nat { 0 }
    fn serialize(&self, s: &mut Serializer) -> (r: Result<()>) { s.serialize_i64(*self) }
    fn serialize_key(&self, s: MapKeySerializer<'_>) -> (r: Result<()>) { proof { reveal(put_key); } s.serialize_i64(*self) }
}
impl Serialize for String {
    open spec fn tree(&self) -> Option<Tree> { Some(Tree::Leaf(Leaf::Str(encode_utf8(self@)))) }
    open spec fn key(&self) -> Option<Seq<u8>> { Some(encode_utf8(self@)) }
    open spec fn cost(&self) -> nat { lsize(self@) }
    open spec fn key_cost(&self) -> nat { lsize(self@) }
    fn serialize(&self, s: &mut Serializer) -> (r: Result<()>) { s.serialize_str(self.as_str()) }
    fn serialize_key(&self, s: MapKeySerializer<'_>) -> (r: Result<()>) { s.serialize_str(self.as_str()) }
}
impl<T: Serialize> Serialize for Option<T> {
    open spec fn tree(&self) -> Option<Tree> { match *self { Some(x) => x.tree(), None => Some(Tree::Leaf(Leaf::Null)) } }
    open spec fn key(&self) -> Option<Seq<u8>> { match *self { Some(x) => x.key(), None => None } }
    open spec fn cost(&self) -> nat { match *self { Some(x) => x.cost(), None => 11 } }
    open spec fn key_cost(&self) -> nat { match *self { Some(x) => x.key_cost(), None => 0 } }
    fn serialize(&self, s: &mut Serializer) -> (r: Result<()>) { match self { Some(x) => s.serialize_some(x), None => s.serialize_none() } }
    fn serialize_key(&self, s: MapKeySerializer<'_>) -> (r: Result<()>) { match self { Some(x) => s.serialize_some(x), None => { proof { reveal(put_key); } s.serialize_none() } } }
}
