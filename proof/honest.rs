// ---- prelude: a proof made by the prover -----------------------------------------------------------
/// The rows of the out-of-domain frame one after another.
pub open spec fn flat(ev: Seq<Vec<FE>>, m: int) -> Seq<FE> decreases m { if m <= 0 { Seq::empty() } else { flat(ev, m - 1) + ev[m - 1]@ } }
pub open spec fn sent(log: Seq<Ev>, s: Seq<FE>) -> Seq<Ev> { values_log(log, s, s.len() as int) }
pub proof fn lemma_values_prefix(log: Seq<Ev>, a: Seq<FE>, b: Seq<FE>, k: int) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures values_log(log, a, k) == values_log(log, b, k) decreases k { if k > 0 { lemma_values_prefix(log, a, b, k - 1); } }
pub proof fn lemma_sent(log: Seq<Ev>, s: Seq<FE>, x: FE) ensures sent(log, s.push(x)) == sent(log, s).push(Ev::App(fe_bytes(x))) { lemma_values_prefix(log, s.push(x), s, s.len() as int); }
pub proof fn lemma_flat(ev: Seq<Vec<FE>>, n: int, m: int) requires 0 <= m <= ev.len(), n > 0, forall|k: int| 0 <= k < ev.len() ==> (#[trigger] ev[k])@.len() == n
    ensures flat(ev, m).len() == m * n, forall|k: int, i: int| 0 <= k < m && 0 <= i < n ==> #[trigger] gcell(flat(ev, m), n, k, i) == ev[k]@[i] decreases m {
    if m > 0 {
        lemma_flat(ev, n, m - 1); assert((m - 1) * n + n == m * n) by (nonlinear_arith); assert(ev[m - 1]@.len() == n);
        assert forall|k: int, i: int| 0 <= k < m && 0 <= i < n implies #[trigger] gcell(flat(ev, m), n, k, i) == ev[k]@[i] by {
            if k < m - 1 { assert(0 <= k * n + i < (m - 1) * n) by (nonlinear_arith) requires 0 <= k < m - 1, 0 <= i < n; assert(gcell(flat(ev, m - 1), n, k, i) == ev[k]@[i]); } else { assert(0 <= (m - 1) * n) by (nonlinear_arith) requires m >= 1, n > 0; }
        }
    } else { assert(0 * n == 0); }
}
/// What the prover had in hand when it made a proof.
pub struct Honest { pub d: Domain, pub r1: Round1, pub r2: Round2, pub r3: Round3, pub r4: Round4, pub w: R4, pub bc: Seq<(FE, FE)>, pub tc: Seq<(FE, FE)>, pub z: int }
/// p consists of what the rounds left.
pub open spec fn assembled(air: &VxAir, p: StarkProof, h: Honest) -> bool {
    let ev = h.r3.trace_ood_evaluations@;
    &&& p.lde_trace_merkle_roots == h.r1.lde_trace_merkle_roots && p.composition_poly_root == h.r2.composition_poly_root
    &&& p.trace_ood_frame_evaluations.data@ == flat(ev, ev.len() as int) && p.trace_ood_frame_evaluations.row_width == h.r1.trace_polys@.len()
    &&& p.composition_poly_even_ood_evaluation == h.r3.composition_poly_even_ood_evaluation && p.composition_poly_odd_ood_evaluation == h.r3.composition_poly_odd_ood_evaluation
    &&& p.fri_layers_merkle_roots == h.r4.fri_layers_merkle_roots && p.fri_last_value == h.r4.fri_last_value && p.query_list == h.r4.query_list && p.deep_poly_openings == h.r4.deep_poly_openings && p.nonce == h.r4.nonce
    &&& p.trace_length == air.s_trace_length()
}
/// Every round did its part, on the challenges that follow from the messages in p.
pub open spec fn honest(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest) -> bool {
    let e = Seq::<Ev>::empty();
    &&& provable(air, h.d) && assembled(air, p, h)
    &&& round1_ok(air, main, h.d, e, h.r1) && h.r1.trace_polys@.len() == air.s_ctx().trace_columns
    &&& pairs_drawn(h.bc, g_coeffs(air, e, p), g_beta(air, e, p), n_boundary(air, e, p)) && pairs_drawn(h.tc, g_talpha(air, e, p), g_tbeta(air, e, p), n_transition(air))
    &&& round2_ok(air, h.d, h.r1, h.bc, h.tc, h.r2)
    &&& first_outside(g_z(air, e, p), z_draw(g_z(air, e, p), h.d), h.d.lde_roots_of_unity_coset@, h.d.trace_roots_of_unity@) && congr(h.z, drawn(g_z(air, e, p), z_draw(g_z(air, e, p), h.d)))
    &&& round3_ok(air, h.d, h.r1, h.r2, h.z, h.r3)
    &&& round4_ok(air, h.d, h.r1, h.r2, h.r3, h.z, g_gamma(air, e, p, h.d), h.r4, h.w)
}
/// What `prove` needs of the AIR it is given: see provable; sizes of the trace as declared, and a nonce that exists.
pub open spec fn can_prove(n: int, cols: int, pi: PubInput, o: ProofOptions) -> bool {
    let air = VxAir::s_new(n, pi, o); let b = o.blowup_factor as int; let h = o.coset_offset as int;
    sizes_ok(n, b) && spare_ok(n, b) && coset_avoids(h, n, b) && !congr(h, 0) && prover_law(&air) && air.s_ctx().trace_columns == cols + air.s_naux() && air.s_ctx().trace_columns * (n * b) <= usize::MAX && nonces_exist(o.grinding_factor as int)
}
pub proof fn lemma_committed(air: &VxAir, main: TraceTable, d: Domain, log0: Seq<Ev>, r1: Round1, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>, r2: Round2) requires round1_ok(air, main, d, log0, r1), round2_ok(air, d, r1, bc, tc, r2), size_of(d) >= 0 ensures committed(r1, r2, size_of(d)) {
    assert forall|k: int| 0 <= k < r1.lde_trace_merkle_trees@.len() implies (#[trigger] r1.lde_trace_merkle_trees@[k]).leaves@.len() == size_of(d) && r1.lde_trace_merkle_trees@[k].root@ == merkle_root(r1.lde_trace_merkle_trees@[k].leaves@) by { if k == 0 { } else { assert(k == 1); } }
}
pub proof fn lemma_lens(air: &VxAir, main: TraceTable, d: Domain, log0: Seq<Ev>, r1: Round1, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>, r2: Round2, l: int) requires round1_ok(air, main, d, log0, r1), round2_ok(air, d, r1, bc, tc, r2), main.nr() <= l, air.s_naux() > 0 ==> air.s_aux(main, r1.rap_challenges).nr() <= l, size_of(d) <= 2 * l, l >= 1, air.s_naux() >= 0
    ensures lens_within(r1.trace_polys@, r2.composition_poly_even@, r2.composition_poly_odd@, l) {
    let p = r1.trace_polys@; let (m, k) = (main.n_cols as int, air.s_naux());
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i])@.len() <= l by { if i < m { assert(p.subrange(0, m)[i] == p[i]); } else { assert(p.subrange(m, m + k)[i - m] == p[i]); } }
}
/// The messages in p put every challenge after the same history as the prover's own transcript.
pub proof fn lemma_honest(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, lc: Seq<Ev>, lz: Seq<Ev>, lg: Seq<Ev>)
    requires ({
        let e = Seq::<Ev>::empty(); let nb = air.s_boundary(h.r1.rap_challenges).constraints@.len() as int; let nt = n_transition(air); let (lb, ev) = (samples(lc, nb), h.r3.trace_ood_evaluations@);
        let (lta, ltb) = (samples(lb, nb), samples(samples(lb, nb), nt));
        &&& provable(air, h.d) && assembled(air, p, h) && air.s_naux() >= 0
        &&& round1_ok(air, main, h.d, e, h.r1) && h.r1.trace_polys@.len() == air.s_ctx().trace_columns && lc == round1_log(air, e, h.r1)
        &&& pairs_drawn(h.bc, lc, lb, nb) && pairs_drawn(h.tc, lta, ltb, nt) && round2_ok(air, h.d, h.r1, h.bc, h.tc, h.r2)
        &&& lz == samples(ltb, nt).push(Ev::App(h.r2.composition_poly_root@))
        &&& first_outside(lz, z_draw(lz, h.d), h.d.lde_roots_of_unity_coset@, h.d.trace_roots_of_unity@) && congr(h.z, drawn(lz, z_draw(lz, h.d)))
        &&& round3_ok(air, h.d, h.r1, h.r2, h.z, h.r3)
        &&& lg == sent(samples(lz, z_draw(lz, h.d) + 1).push(Ev::App(fe_bytes(h.r3.composition_poly_even_ood_evaluation))).push(Ev::App(fe_bytes(h.r3.composition_poly_odd_ood_evaluation))), flat(ev, ev.len() as int))
        &&& round4_ok(air, h.d, h.r1, h.r2, h.r3, h.z, lg, h.r4, h.w)
    })
    ensures honest(air, main, p, h)
{
    let e = Seq::<Ev>::empty();
    assert(g_coeffs(air, e, p) == lc); assert(the_rap(air, e, p) == h.r1.rap_challenges); assert(g_z(air, e, p) == lz); assert(g_gamma(air, e, p, h.d) == lg);
}
