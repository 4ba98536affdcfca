// ---- prelude: the prover's rounds -------------------------------------------------------------------
impl VxAir {
    pub uninterp spec fn s_aux(&self, main: TraceTable, rap: RAPChallenges) -> TraceTable;
    /// Builds the auxiliary columns: as many as declared, over as many rows as the main trace has.
    #[verifier::external_body]
    pub fn build_auxiliary_trace(&self, main: &TraceTable, rap: &RAPChallenges) -> (r: TraceTable)
        ensures r == self.s_aux(*main, *rap), r.n_cols == self.s_naux(), r.n_cols > 0 ==> r.wf() && r.nr() == main.nr() { unimplemented!() }
}
/// Values of all columns at one point of the extended domain.
pub open spec fn evals_row(cols: Seq<Vec<FE>>, i: int) -> Seq<int> { Seq::new(cols.len(), |c: int| rep(cols[c]@[i])) }
/// polys are the column polynomials of t.
pub open spec fn polys_of(polys: Seq<Polynomial<FE>>, t: TraceTable) -> bool {
    polys.len() == t.n_cols && forall|c: int| 0 <= c < polys.len() ==> interpolates((#[trigger] polys[c])@, &t, c) && polys[c]@.len() <= t.nr()
}
/// Their values on the extended domain.
pub open spec fn extended(evals: Seq<Vec<FE>>, polys: Seq<Polynomial<FE>>, h: int, size: int) -> bool {
    evals.len() == polys.len() && forall|c: int| 0 <= c < evals.len() ==> on_domain((#[trigger] evals[c])@, polys[c]@, h, size)
}
/// A domain the prover can work on.
pub open spec fn workable(d: Domain) -> bool {
    let (n, b) = (d.interpolation_domain_size as int, d.blowup_factor as int);
    is_pow2(n) && n >= 2 && is_pow2(b) && n * b <= 0x1000_0000_0000_0000 && log2(n * b) <= two_adicity() && log2(n) <= two_adicity()
}
pub open spec fn size_of(d: Domain) -> int { d.interpolation_domain_size * d.blowup_factor }
/// An extended trace of this many columns fits in memory.
pub open spec fn fits(cols: int, d: Domain) -> bool { cols * size_of(d) <= usize::MAX }
/// Row i of columns from..to of a table, as field values.
pub open spec fn row_part(t: TraceTable, i: int, from: int, to: int) -> Seq<int> { Seq::new((to - from) as nat, |c: int| rep(t.cell(i, from + c))) }
pub open spec fn commits_part(m: BatchedMerkleTree, t: TraceTable, from: int, to: int, size: int) -> bool { tree_of(m, Seq::new(size as nat, |i: int| row_part(t, i, from, to))) }
pub open spec fn lde_of(t: TraceTable, polys: Seq<Polynomial<FE>>, h: int, size: int) -> bool {
    t.wf() && t.nr() == size && t.n_cols == polys.len() && forall|i: int, c: int| 0 <= i < size && 0 <= c < polys.len() ==> congr((#[trigger] t.cell(i, c))@, peval(polys[c]@, h * ipow(omega(log2(size)), i as nat)))
}
/// What the first round leaves: column polynomials of both traces, their extension, and the trees over it.
pub open spec fn round1_ok(air: &VxAir, main: TraceTable, d: Domain, log0: Seq<Ev>, r: Round1) -> bool {
    let (m, k) = (main.n_cols as int, air.s_naux()); let aux = air.s_aux(main, r.rap_challenges); let p = r.trace_polys@;
    &&& r.rap_challenges == air.s_rap(log0.push(Ev::App(r.lde_trace_merkle_roots@[0]@)))
    &&& r.lde_trace_merkle_roots@.len() == (if k > 0 { 2int } else { 1 }) && r.lde_trace_merkle_trees@.len() == r.lde_trace_merkle_roots@.len()
    &&& forall|j: int| 0 <= j < r.lde_trace_merkle_roots@.len() ==> (#[trigger] r.lde_trace_merkle_roots@[j])@ == r.lde_trace_merkle_trees@[j].root@
    &&& p.len() == m + k && polys_of(p.subrange(0, m), main) && (k > 0 ==> aux.wf() && aux.nr() == main.nr() && polys_of(p.subrange(m, m + k), aux))
    &&& lde_of(r.lde_trace, p, d.coset_offset@, size_of(d))
    &&& commits_part(r.lde_trace_merkle_trees@[0], r.lde_trace, 0, m, size_of(d)) && (k > 0 ==> commits_part(r.lde_trace_merkle_trees@[1], r.lde_trace, m, m + k, size_of(d)))
}
/// The messages of the first round.
pub open spec fn round1_log(air: &VxAir, log0: Seq<Ev>, r: Round1) -> Seq<Ev> {
    let l = air.s_rap_log(log0.push(Ev::App(r.lde_trace_merkle_roots@[0]@))); if air.s_naux() > 0 { l.push(Ev::App(r.lde_trace_merkle_roots@[1]@)) } else { l }
}
