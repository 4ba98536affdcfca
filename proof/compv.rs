// ---- prelude: what the verifier's second step accepts ----------------------------------------
/// The claimed halves recombine to the composition value of the claimed frame.
pub open spec fn composition_accepts(air: &VxAir, p: StarkProof, c: Challenges) -> bool {
    steps_inside(air, c.rap_challenges)
    && congr(p.composition_poly_even_ood_evaluation@ + c.z@ * p.composition_poly_odd_ood_evaluation@,
        comp_value(air, c.rap_challenges, reps(p.trace_ood_frame_evaluations.data@), c.z@, omega(log2(air.s_trace_length())), c.boundary_coeffs@, c.transition_coeffs@))
}
