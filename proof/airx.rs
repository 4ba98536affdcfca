// ---- prelude: the whole AIR interface ----------------------------------------------------------
#[verifier::external_body]
pub struct RAPChallenges { x: u8 }
pub open spec fn row_of(f: Frame, r: int) -> Seq<FE> { Seq::new(f.row_width as nat, |c: int| gcell(f.data@, f.row_width as int, r, c)) }
impl VxAir {
    pub uninterp spec fn s_ctx(&self) -> AirContext;
    pub uninterp spec fn s_naux(&self) -> int;
    pub uninterp spec fn s_bound(&self) -> int;
    pub uninterp spec fn s_boundary(&self, rap: RAPChallenges) -> BoundaryConstraints;
    /// The transition constraints on a frame with these (canonical) values.
    pub uninterp spec fn s_transition(&self, frame: Seq<int>, rap: RAPChallenges) -> Seq<int>;
    pub uninterp spec fn s_rap(&self, log: Seq<Ev>) -> RAPChallenges;
    pub uninterp spec fn s_rap_log(&self, log: Seq<Ev>) -> Seq<Ev>;
    #[verifier::external_body]
    pub fn context(&self) -> (r: &AirContext) ensures *r == self.s_ctx() { unimplemented!() }
    #[verifier::external_body]
    pub fn number_auxiliary_rap_columns(&self) -> (r: usize) ensures r == self.s_naux() { unimplemented!() }
    #[verifier::external_body]
    pub fn composition_poly_degree_bound(&self) -> (r: usize) ensures r == self.s_bound() { unimplemented!() }
    #[verifier::external_body]
    pub fn boundary_constraints(&self, rap: &RAPChallenges) -> (r: BoundaryConstraints) ensures r == self.s_boundary(*rap) { unimplemented!() }
    #[verifier::external_body]
    pub fn build_rap_challenges(&self, t: &mut VxTranscript) -> (r: RAPChallenges) ensures r == self.s_rap(old(t).log()), final(t).log() == self.s_rap_log(old(t).log()) { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_transition(&self, f: &Frame, rap: &RAPChallenges) -> (r: Vec<FE>)
        requires f.row_width == self.s_ctx().trace_columns, f.data@.len() == self.s_ctx().transition_offsets@.len() * f.row_width
        ensures r@.len() == self.s_ctx().num_transition_constraints, self.s_transition(reps(f.data@), *rap).len() == r@.len(),
            forall|i: int| 0 <= i < r@.len() ==> congr((#[trigger] r@[i])@, self.s_transition(reps(f.data@), *rap)[i]) { unimplemented!() }
}
/// What the protocol code relies on in every AIR.
pub open spec fn lawful(air: &VxAir) -> bool {
    let c = air.s_ctx(); let n = air.s_trace_length();
    &&& c.proof_options == air.s_options()
    &&& 1 <= c.trace_columns && 0 <= air.s_naux() < c.trace_columns
    &&& 1 <= c.transition_offsets@.len() && c.transition_offsets@.len() * c.trace_columns <= usize::MAX
    &&& c.transition_degrees@.len() == c.num_transition_constraints && c.transition_exemptions@.len() == c.num_transition_constraints && c.num_transition_constraints >= 1
    &&& forall|i: int| 0 <= i < c.num_transition_constraints ==> 1 <= (#[trigger] c.transition_degrees@[i]) && n * (c.transition_degrees@[i] - 1) <= air.s_bound()
    &&& forall|i: int| 0 <= i < c.num_transition_constraints ==> (#[trigger] c.transition_exemptions@[i]) <= n
    &&& forall|rap: RAPChallenges, i: int| 0 <= i < air.s_boundary(rap).constraints@.len() ==> (#[trigger] air.s_boundary(rap).constraints@[i]).col < c.trace_columns
    &&& air.s_bound() >= n
}
pub open spec fn n_transition(air: &VxAir) -> int { air.s_ctx().num_transition_constraints as int }
