//@global crate :: encoder :: Result => Result
//@global self . collections . last ( ) => vx_last(&self.collections)
//@global self . collections . last_mut ( ) => vx_last_mut(&mut self.collections)
impl CollectionStack {
//@extract src/encoder/value_stack.rs impl CollectionStack :: fn new
//@prop C04 C05
//@ret r
//@contract
    ensures r.collections@ == Seq::<Collection>::empty(),
//@end
//@extract src/encoder/value_stack.rs impl CollectionStack :: fn top
//@prop C04 C05
//@ret r
//@contract
    ensures match r { Some(x) => self.collections@.len() > 0 && *x == self.collections@.last(), None => self.collections@.len() == 0 },
//@end
//@extract src/encoder/value_stack.rs impl CollectionStack :: fn top_mut
//@prop C04 C05
//@ret r
//@contract
    ensures match r { Some(x) => old(self).collections@.len() > 0 && *x == old(self).collections@.last()
            && final(self).collections@ == old(self).collections@.update(old(self).collections@.len() - 1, *final(x)),
        None => old(self).collections@.len() == 0 && *final(self) == *old(self) },
//@end
//@extract src/encoder/value_stack.rs impl CollectionStack :: fn empty
//@prop C04 C05
//@ret r
//@contract
    ensures r == (self.collections@.len() == 0),
//@end
//@extract src/encoder/value_stack.rs impl CollectionStack :: fn push_array
//@prop C04 C05
//@ret r
//@contract
    ensures r.is_ok() == !top_waits(old(self).collections@), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> exists|a: value_stack::Array| a.values@.len() == 0 && final(self).collections@ == old(self).collections@.push(Collection::Array(a)),
//@end
//@extract src/encoder/value_stack.rs impl CollectionStack :: fn push_dict
//@prop C04 C05
//@ret r
//@contract
    ensures r.is_ok() == !top_waits(old(self).collections@), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> exists|a: value_stack::Dict| a.values@.len() == 0 && a.next_key is None && final(self).collections@ == old(self).collections@.push(Collection::Dict(a)),
//@end
//@extract src/encoder/value_stack.rs impl CollectionStack :: fn pop
//@prop C04 C05
//@ret r
//@contract
    ensures match r {
        Some(c) => old(self).collections@.len() > 0 && c == old(self).collections@.last() && final(self).collections@ == old(self).collections@.drop_last()
            && (c matches Collection::Dict(d) ==> d.next_key is None),
        None => final(self).collections@ == old(self).collections@ && (old(self).collections@.len() == 0 || (old(self).collections@.last() matches Collection::Dict(d) && d.next_key is Some)),
    },
//@end
}
/// the innermost collection is a dict without a key to put a value under
pub open spec fn top_waits(cs: Seq<Collection>) -> bool { cs.len() > 0 && (cs.last() matches Collection::Dict(d) && d.next_key is None) }
impl value_stack::Array {
//@extract src/encoder/value_stack.rs impl Array :: fn with_capacity
//@prop C04 C05
//@ret r
//@contract
    ensures r.values@.len() == 0,
//@end
//@extract src/encoder/value_stack.rs impl Array :: fn push
//@prop C04 C05
//@contract
    ensures final(self).values@ == old(self).values@.push(value),
//@end
}
impl value_stack::Dict {
//@extract src/encoder/value_stack.rs impl Dict :: fn new
//@prop C04 C05
//@ret r
//@contract
    ensures r.values@.len() == 0, r.next_key is None,
//@end
//@extract src/encoder/value_stack.rs impl Dict :: fn push_key
//@prop C04 C05
//@ret r
//@contract
    ensures r.is_some() == (old(self).next_key is None), final(self).values == old(self).values, r.is_none() ==> *final(self) == *old(self),
        r.is_some() ==> final(self).next_key == Some(key),
//@end
//@extract src/encoder/value_stack.rs impl Dict :: fn push_value
//@prop C04 C05
//@ret r
//@contract
    ensures r.is_some() == (old(self).next_key is Some), r.is_none() ==> *final(self) == *old(self),
        old(self).next_key matches Some(k) ==> final(self).values@ == old(self).values@.push(DictElement { key: k, val: value }) && final(self).next_key is None,
//@end
}
//@globals-off
