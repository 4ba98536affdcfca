// ---- prelude: prover and verifier draw the same challenges -----------------------------------------
pub open spec fn same_points(a: Seq<FE>, b: Seq<FE>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> congr((#[trigger] a[i])@, b[i]@) }
pub proof fn lemma_same_in(v: int, a: Seq<FE>, b: Seq<FE>, x: Seq<FE>, y: Seq<FE>) requires same_points(a, b), same_points(x, y) ensures in_domains(v, a, x) ==> in_domains(v, b, y) {
    if exists|i: int| 0 <= i < a.len() && congr(v, (#[trigger] a[i])@) { let i = choose|i: int| 0 <= i < a.len() && congr(v, (#[trigger] a[i])@); assert(congr(v, b[i]@)); }
    if exists|i: int| 0 <= i < x.len() && congr(v, (#[trigger] x[i])@) { let i = choose|i: int| 0 <= i < x.len() && congr(v, (#[trigger] x[i])@); assert(congr(v, y[i]@)); }
}
pub proof fn lemma_same_domain(a: Domain, b: Domain, air: &VxAir) requires domain_of(a, air), domain_of(b, air) ensures same_points(a.lde_roots_of_unity_coset@, b.lde_roots_of_unity_coset@), same_points(a.trace_roots_of_unity@, b.trace_roots_of_unity@) {
    assert forall|i: int| 0 <= i < a.lde_roots_of_unity_coset@.len() implies congr((#[trigger] a.lde_roots_of_unity_coset@[i])@, b.lde_roots_of_unity_coset@[i]@) by { assert(congr(b.lde_roots_of_unity_coset@[i]@, b.lde_roots_of_unity_coset@[i]@)); }
    assert forall|i: int| 0 <= i < a.trace_roots_of_unity@.len() implies congr((#[trigger] a.trace_roots_of_unity@[i])@, b.trace_roots_of_unity@[i]@) by { assert(congr(b.trace_roots_of_unity@[i]@, b.trace_roots_of_unity@[i]@)); }
}
/// The out-of-domain point does not depend on which representatives the domain holds.
pub proof fn lemma_same_draw(air: &VxAir, a: Domain, b: Domain, log: Seq<Ev>, k: int) requires domain_of(a, air), domain_of(b, air), first_outside(log, k, a.lde_roots_of_unity_coset@, a.trace_roots_of_unity@)
    ensures z_draw(log, a) == k, z_draw(log, b) == k, first_outside(log, k, b.lde_roots_of_unity_coset@, b.trace_roots_of_unity@)
{
    lemma_z_draw(log, a, k); lemma_same_domain(a, b, air); lemma_same_domain(b, a, air);
    let (x, y, u, v) = (a.lde_roots_of_unity_coset@, a.trace_roots_of_unity@, b.lde_roots_of_unity_coset@, b.trace_roots_of_unity@);
    assert forall|j: int| 0 <= j < k implies in_domains(#[trigger] field_of(digest(samples(log, j))), u, v) by { lemma_same_in(field_of(digest(samples(log, j))), x, u, y, v); }
    lemma_same_in(field_of(digest(samples(log, k))), u, x, v, y);
    lemma_z_draw(log, b, k);
}
pub open spec fn same_pairs(a: Seq<(FE, FE)>, b: Seq<(FE, FE)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> congr((#[trigger] a[i]).0@, b[i].0@) && congr(a[i].1@, b[i].1@) }
pub open spec fn same_terms(c: Seq<Vec<FE>>, gam: Seq<FE>, cols: int, m: int) -> bool { c.len() == cols && forall|i: int, k: int| 0 <= i < cols && 0 <= k < m ==> congr((#[trigger] c[i]@[k])@, gam[i * m + k]@) }
/// The log every later message of the proof follows.
pub open spec fn after_claims(air: &VxAir, p: StarkProof, h: Honest) -> Seq<Ev> { g_gamma(air, Seq::empty(), p, h.d) }
/// The verifier's challenges are the prover's.
pub open spec fn same_challenges(air: &VxAir, p: StarkProof, h: Honest, c: Challenges) -> bool {
    let g = after_claims(air, p, h);
    &&& c.rap_challenges == h.r1.rap_challenges && same_pairs(c.boundary_coeffs@, h.bc) && same_pairs(c.transition_coeffs@, h.tc) && congr(c.z@, h.z)
    &&& congr(c.gamma_even@, h.w.ge) && congr(c.gamma_odd@, h.w.go) && same_terms(c.trace_term_coeffs@, h.w.gam, air.s_ctx().trace_columns as int, air.s_ctx().transition_offsets@.len() as int)
    &&& zetas_drawn(c.zetas@, r4_fri(air, g), root_list(h.w.l)) && c.leading_zeros_count >= air.s_options().grinding_factor && c.iotas@ == h.w.iotas
}
pub proof fn lemma_pairs_same(v: Seq<(FE, FE)>, w: Seq<(FE, FE)>, a: Seq<Ev>, b: Seq<Ev>, n: int) requires pairs_drawn(v, a, b, n), pairs_drawn(w, a, b, n) ensures same_pairs(v, w) {
    assert forall|i: int| 0 <= i < v.len() implies congr((#[trigger] v[i]).0@, w[i].0@) && congr(v[i].1@, w[i].1@) by { assert(congr(w[i].0@, drawn(a, i)) && congr(w[i].1@, drawn(b, i))); }
}
pub proof fn lemma_terms_same(air: &VxAir, v: Seq<Vec<FE>>, w: R4, g: Seq<Ev>, cols: int, m: int) requires terms_drawn(v, samples(g, 2), cols, m), gammas_drawn(air, g, w), cols == air.s_ctx().trace_columns, m == air.s_ctx().transition_offsets@.len() ensures same_terms(v, w.gam, cols, m) {
    assert forall|i: int, k: int| 0 <= i < cols && 0 <= k < m implies congr((#[trigger] v[i]@[k])@, w.gam[i * m + k]@) by {
        assert(v[i]@.len() == m); lemma_idx(i, k, cols, m); assert(cols * m == m * cols) by (nonlinear_arith);
        assert(congr(w.gam[i * m + k]@, field_of(digest(samples(samples(g, 2), i * m + k)))));
        assert(congr(v[i]@[k]@, drawn(samples(g, 2), i * m + k)));
    }
}
/// Everything the verifier computes from an honest proof's messages is what the prover computed.
pub proof fn theorem_same_challenges(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, d: Domain, c: Challenges)
    requires honest(air, main, p, h), domain_of(d, air), challenges_of(air, Seq::empty(), p, d, c)
    ensures same_challenges(air, p, h, c)
{
    let e = Seq::<Ev>::empty(); let lz = g_z(air, e, p); let k = z_draw(lz, h.d); lemma_same_draw(air, h.d, d, lz, k);
    let g = after_claims(air, p, h); assert(g_gamma(air, e, p, d) == g);
    lemma_pairs_same(c.boundary_coeffs@, h.bc, g_coeffs(air, e, p), g_beta(air, e, p), n_boundary(air, e, p)); lemma_pairs_same(c.transition_coeffs@, h.tc, g_talpha(air, e, p), g_tbeta(air, e, p), n_transition(air));
    let (cols, m) = (air.s_ctx().trace_columns as int, air.s_ctx().transition_offsets@.len() as int);
    lemma_terms_same(air, c.trace_term_coeffs@, h.w, g, cols, m);
    assert(n_terms(air) == n_gammas(air)) by { assert(cols * m == m * cols) by (nonlinear_arith); }
    assert(g_fri(air, e, p, d) == r4_fri(air, g)); assert(fri_roots(p) == root_list(h.w.l)); assert(fri_roots(p).len() == h.w.l.len());
    assert(g_grind(air, e, p, d) == r4_grind(air, g, h.w.l, h.r4.fri_last_value)); let q = r4_query(air, g, h.w.l, h.r4); assert(g_query(air, e, p, d) == q);
    let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); lemma_pow2_mul(n, b); lemma_log2_bound(n * b); assert(size_of(h.d) == n * b);
    assert(c.iotas@ =~= h.w.iotas) by { assert forall|s: int| 0 <= s < c.iotas@.len() implies c.iotas@[s] == #[trigger] h.w.iotas[s] by { assert(c.iotas@[s] == index_of(digest(samples(q, s))) % ipow(2, d.lde_root_order as nat)); } }
}
