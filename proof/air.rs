// ---- prelude: an AIR seen through its interface ---------------------------------------------------
#[verifier::external_body]
pub struct VxAir { x: u8 }
impl VxAir {
    pub uninterp spec fn s_options(&self) -> ProofOptions;
    pub uninterp spec fn s_trace_length(&self) -> int;
    #[verifier::external_body]
    pub fn options(&self) -> (r: &ProofOptions) ensures *r == self.s_options() { unimplemented!() }
    #[verifier::external_body]
    pub fn trace_length(&self) -> (r: usize) ensures r == self.s_trace_length() { unimplemented!() }
}
