// ---- prelude: every challenge of the protocol, as a function of the messages before it --------------
/// The transcript after sending k elements one by one.
pub open spec fn values_log(log0: Seq<Ev>, d: Seq<FE>, k: int) -> Seq<Ev> decreases k { if k <= 0 { log0 } else { values_log(log0, d, k - 1).push(Ev::App(fe_bytes(d[k - 1]))) } }
/// The number of challenges rejected before the out-of-domain point.
pub open spec fn z_draw(log: Seq<Ev>, d: Domain) -> int { choose|k: int| first_outside(log, k, d.lde_roots_of_unity_coset@, d.trace_roots_of_unity@) }
pub proof fn lemma_z_draw(log: Seq<Ev>, d: Domain, k: int) requires first_outside(log, k, d.lde_roots_of_unity_coset@, d.trace_roots_of_unity@) ensures z_draw(log, d) == k {
    let j = z_draw(log, d); let (a, b) = (d.lde_roots_of_unity_coset@, d.trace_roots_of_unity@);
    assert(first_outside(log, j, a, b));
    if j < k { assert(in_domains(field_of(digest(samples(log, j))), a, b)); }
    if k < j { assert(in_domains(field_of(digest(samples(log, k))), a, b)); }
}
/// Before the RAP challenges: the main trace commitment has been sent.
pub open spec fn g_rap(log0: Seq<Ev>, p: StarkProof) -> Seq<Ev> { log0.push(Ev::App(p.lde_trace_merkle_roots@[0]@)) }
pub open spec fn the_rap(air: &VxAir, log0: Seq<Ev>, p: StarkProof) -> RAPChallenges { air.s_rap(g_rap(log0, p)) }
/// Before the constraint coefficients: the auxiliary trace commitment (if there is one) too.
pub open spec fn g_coeffs(air: &VxAir, log0: Seq<Ev>, p: StarkProof) -> Seq<Ev> {
    let l = air.s_rap_log(g_rap(log0, p)); if p.lde_trace_merkle_roots@.len() >= 2 { l.push(Ev::App(p.lde_trace_merkle_roots@[1]@)) } else { l }
}
pub open spec fn n_boundary(air: &VxAir, log0: Seq<Ev>, p: StarkProof) -> int { air.s_boundary(the_rap(air, log0, p)).constraints@.len() as int }
pub open spec fn g_beta(air: &VxAir, log0: Seq<Ev>, p: StarkProof) -> Seq<Ev> { samples(g_coeffs(air, log0, p), n_boundary(air, log0, p)) }
pub open spec fn g_talpha(air: &VxAir, log0: Seq<Ev>, p: StarkProof) -> Seq<Ev> { samples(g_beta(air, log0, p), n_boundary(air, log0, p)) }
pub open spec fn g_tbeta(air: &VxAir, log0: Seq<Ev>, p: StarkProof) -> Seq<Ev> { samples(g_talpha(air, log0, p), n_transition(air)) }
/// Before the out-of-domain point: the composition polynomial's commitment.
pub open spec fn g_z(air: &VxAir, log0: Seq<Ev>, p: StarkProof) -> Seq<Ev> { samples(g_tbeta(air, log0, p), n_transition(air)).push(Ev::App(p.composition_poly_root@)) }
/// Before the DEEP coefficients: the values claimed at that point.
pub open spec fn g_gamma(air: &VxAir, log0: Seq<Ev>, p: StarkProof, d: Domain) -> Seq<Ev> {
    let l = samples(g_z(air, log0, p), z_draw(g_z(air, log0, p), d) + 1).push(Ev::App(fe_bytes(p.composition_poly_even_ood_evaluation))).push(Ev::App(fe_bytes(p.composition_poly_odd_ood_evaluation)));
    values_log(l, p.trace_ood_frame_evaluations.data@, p.trace_ood_frame_evaluations.data@.len() as int)
}
pub open spec fn g_tgamma(air: &VxAir, log0: Seq<Ev>, p: StarkProof, d: Domain) -> Seq<Ev> { samples(g_gamma(air, log0, p, d), 2) }
pub open spec fn n_terms(air: &VxAir) -> int { air.s_ctx().trace_columns * air.s_ctx().transition_offsets@.len() }
pub open spec fn g_fri(air: &VxAir, log0: Seq<Ev>, p: StarkProof, d: Domain) -> Seq<Ev> { samples(g_tgamma(air, log0, p, d), n_terms(air)) }
pub open spec fn fri_roots(p: StarkProof) -> Seq<Seq<u8>> { hashes(p.fri_layers_merkle_roots@) }
/// Before the grinding challenge: every layer root and the final value.
pub open spec fn g_grind(air: &VxAir, log0: Seq<Ev>, p: StarkProof, d: Domain) -> Seq<Ev> {
    commit_log(g_fri(air, log0, p, d), fri_roots(p), fri_roots(p).len() as int).push(Ev::Smp).push(Ev::App(fe_bytes(p.fri_last_value)))
}
/// Before the query indices: the nonce.
pub open spec fn g_query(air: &VxAir, log0: Seq<Ev>, p: StarkProof, d: Domain) -> Seq<Ev> { g_grind(air, log0, p, d).push(Ev::Smp).push(Ev::App(be_bytes(p.nonce as int, 8))) }
/// Challenge number k drawn after this history.
pub open spec fn drawn(log: Seq<Ev>, k: int) -> int { field_of(digest(samples(log, k))) }
pub open spec fn pairs_drawn(v: Seq<(FE, FE)>, a: Seq<Ev>, b: Seq<Ev>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> congr((#[trigger] v[i]).0@, drawn(a, i)) && congr(v[i].1@, drawn(b, i)) }
pub open spec fn terms_drawn(v: Seq<Vec<FE>>, log: Seq<Ev>, cols: int, offs: int) -> bool {
    v.len() == cols && forall|i: int| 0 <= i < cols ==> (#[trigger] v[i])@.len() == offs && forall|j: int| 0 <= j < offs ==> congr((#[trigger] v[i]@[j])@, drawn(log, i * offs + j))
}
pub open spec fn zetas_drawn(v: Seq<FE>, log: Seq<Ev>, roots: Seq<Seq<u8>>) -> bool { v.len() == roots.len() && forall|k: int| 0 <= k < v.len() ==> congr((#[trigger] v[k])@, zeta_of(log, roots, k + 1)) }
pub open spec fn iotas_drawn(v: Seq<usize>, log: Seq<Ev>, n: int, size: int) -> bool { v.len() == n && forall|s: int| 0 <= s < n ==> #[trigger] v[s] == index_of(digest(samples(log, s))) % size }
pub proof fn lemma_samples_add(log: Seq<Ev>, a: int, b: int) requires a >= 0, b >= 0 ensures samples(samples(log, a), b) == samples(log, a + b) decreases b { if b > 0 { lemma_samples_add(log, a, b - 1); } }
