// ---------------------------------------------------------------- the bytes being decoded
// Every `Bytes` is a sub-slice of one arbitrary, unchanging byte sequence `doc()` which starts at
// address `base()`.  Its operations are Rust's slice operations; each has as precondition what the
// language (or, for the unsafe ones, the absence of undefined behaviour) demands.
pub uninterp spec fn doc() -> Seq<u8>;
pub uninterp spec fn base() -> int;
pub broadcast axiom fn axiom_doc()
    ensures #[trigger] base() >= 1, base() + doc().len() <= usize::MAX, doc().len() <= isize::MAX;

#[verifier::external_body]
pub struct Bytes { p: u8 }
pub uninterp spec fn b_pos(b: Bytes) -> int;
pub uninterp spec fn b_len(b: Bytes) -> int;
pub broadcast axiom fn axiom_bytes(b: Bytes)
    ensures 0 <= #[trigger] b_pos(b), 0 <= b_len(b), b_pos(b) + b_len(b) <= doc().len(), doc().len() <= isize::MAX, base() >= 1, base() + doc().len() <= usize::MAX;

pub struct PtrRange { pub start: usize, pub end: usize }
impl Bytes {
    pub open spec fn pos(&self) -> int { b_pos(*self) }
    pub open spec fn n(&self) -> int { b_len(*self) }
    pub open spec fn view(&self) -> Seq<u8> { doc().subrange(self.pos(), self.pos() + self.n()) }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.n() == 0) { unimplemented!() }
    /// self[i]
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: u8) requires i < self.n() ensures r == self@[i as int], r == doc()[self.pos() + i] { unimplemented!() }
    /// &self[a..]
    #[verifier::external_body]
    pub fn from(&self, a: usize) -> (r: &Bytes) requires a <= self.n()
        ensures r.pos() == self.pos() + a, r.n() == self.n() - a, r@ == self@.skip(a as int) { unimplemented!() }
    /// &self[a..b]
    #[verifier::external_body]
    pub fn range(&self, a: usize, b: usize) -> (r: &Bytes) requires a <= b <= self.n()
        ensures r.pos() == self.pos() + a, r.n() == b - a, r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    /// self.get(a..b).unwrap_or(&[])
    #[verifier::external_body]
    pub fn get_or_empty(&self, a: usize, b: usize) -> (r: &Bytes)
        ensures a <= b <= self.n() ==> r.pos() == self.pos() + a && r.n() == b - a && r@ == self@.subrange(a as int, b as int),
            !(a <= b <= self.n()) ==> r.n() == 0 && r@ == Seq::<u8>::empty() { unimplemented!() }
    /// &[]
    #[verifier::external_body]
    pub fn empty<'a>() -> (r: &'a Bytes) ensures r.n() == 0, r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: usize) ensures r == base() + self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr_range(&self) -> (r: PtrRange) ensures r.start == base() + self.pos(), r.end == base() + self.pos() + self.n() { unimplemented!() }
    /// dst.copy_from_slice(self)
    #[verifier::external_body]
    pub fn copy_into<const N: usize>(&self, dst: &mut [u8; N]) requires self.n() == N
        ensures final(dst)@ == self@ { unimplemented!() }
    /// ptr::copy_nonoverlapping(self.as_ptr(), dst.as_mut_ptr(), n)
    #[verifier::external_body]
    pub fn copy_ptr<const N: usize>(&self, dst: &mut [u8; N], n: usize) requires n <= self.n(), n <= N
        ensures final(dst)@ == self@.subrange(0, n as int) + old(dst)@.skip(n as int) { unimplemented!() }
}
/// pointer arithmetic is only defined inside the allocation (or one past its end)
pub trait VxPtr: Sized {
    spec fn addr(self) -> int;
    fn add(self, n: usize) -> (r: usize)
        requires base() <= self.addr(), self.addr() + n <= base() + doc().len()
        ensures r == self.addr() + n;
    fn offset(self, n: isize) -> (r: usize)
        requires base() <= self.addr() + n <= base() + doc().len()
        ensures r == self.addr() + n;
}
impl VxPtr for usize {
    open spec fn addr(self) -> int { self as int }
    #[verifier::external_body]
    fn add(self, n: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn offset(self, n: isize) -> (r: usize) { unimplemented!() }
}
/// slice::from_raw_parts
#[verifier::external_body]
pub fn raw_parts<'a>(p: usize, n: usize) -> (r: &'a Bytes)
    requires base() <= p, p + n <= base() + doc().len()
    ensures r.pos() == p - base(), r.n() == n { unimplemented!() }

pub broadcast group group_trusted { axiom_doc, axiom_bytes, axiom_cast_1, axiom_cast_2, axiom_cast_3, axiom_cast_4, axiom_cast_5, axiom_cast_6, axiom_cast_7, axiom_cast_8 }
