/// Arc<[u8]>: its bytes do not change, and are there as long as it is
#[verifier::external_body]
pub struct Buf { p: u8 }
impl Buf {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn addr(&self) -> int;
    /// the addresses it takes
    pub open spec fn covers(&self, a: int) -> bool { self.addr() <= a < self.addr() + self@.len() }
}
pub broadcast axiom fn axiom_buf(b: Buf)
    ensures 1 <= #[trigger] b.addr(), b.addr() + b@.len() <= usize::MAX, b@.len() <= isize::MAX;
