// every SharedKeys in existence was made and changed by the functions of group shared_keys, which keep this invariant
#[verifier::external_body]
pub struct SharedKeys { p: u8 }
impl SharedKeys {
    pub uninterp spec fn view(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn wf(&self) -> bool;
}
pub broadcast axiom fn axiom_shared_keys(s: SharedKeys)
    ensures #[trigger] s.wf(), sk_ok(s@);
