/// The challenges that follow from these messages, for a transcript that starts with log0.
pub open spec fn challenges_of(air: &VxAir, log0: Seq<Ev>, p: StarkProof, d: Domain, c: Challenges) -> bool {
    &&& c.rap_challenges == the_rap(air, log0, p)
    &&& pairs_drawn(c.boundary_coeffs@, g_coeffs(air, log0, p), g_beta(air, log0, p), n_boundary(air, log0, p))
    &&& pairs_drawn(c.transition_coeffs@, g_talpha(air, log0, p), g_tbeta(air, log0, p), n_transition(air))
    &&& congr(c.z@, drawn(g_z(air, log0, p), z_draw(g_z(air, log0, p), d))) && !in_domains(c.z@, d.lde_roots_of_unity_coset@, d.trace_roots_of_unity@)
    &&& congr(c.gamma_even@, drawn(g_gamma(air, log0, p, d), 0)) && congr(c.gamma_odd@, drawn(g_gamma(air, log0, p, d), 1))
    &&& terms_drawn(c.trace_term_coeffs@, g_tgamma(air, log0, p, d), air.s_ctx().trace_columns as int, air.s_ctx().transition_offsets@.len() as int)
    &&& zetas_drawn(c.zetas@, g_fri(air, log0, p, d), fri_roots(p))
    &&& c.leading_zeros_count == difficulty(digest(g_grind(air, log0, p, d)), p.nonce as int)
    &&& iotas_drawn(c.iotas@, g_query(air, log0, p, d), air.s_options().fri_number_of_queries as int, ipow(2, d.lde_root_order as nat))
}
