//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Challenges": "Challenges!"}, "methods": {"to_be_bytes": "vx_to_be", "verify": "vx_verify"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/frame.rs Frame
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/proof/stark.rs StarkProof
//@ item starks/verifier.rs Challenges
//@ include cell.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include comp.rs
//@ include compv.rs
//@ use c08 Frame::num_rows
//@ use c08 Frame::num_columns
//@ use c08 Frame::has_shape
//@ use c08 Frame::get_row
//@ fn starks/context.rs AirContext::transition_degrees
ensures ret@ == self.transition_degrees@,
//@ fn starks/traits.rs AIR::transition_exemptions_verifier {"rename": {"AIR": "VxAir"}, "types": {"vo_0": "Vec<Polynomial<FE>>"}}
requires n_transition(self) >= 1, self.s_ctx().transition_exemptions@.len() == n_transition(self), forall|i: int| 0 <= i < n_transition(self) ==> (#[trigger] self.s_ctx().transition_exemptions@[i]) <= 0x1000_0000_0000_0000,
ensures
    forall|i: int| 0 <= i < n_transition(self) ==> (#[trigger] self.s_ctx().transition_exemptions@[i]) <= ret@.len(),
    forall|e: int, x: int| 0 <= e < ret@.len() ==> congr(#[trigger] peval(ret@[e]@, x), exempt_powers(root@, e + 1, x)),
//@ loop 0
invariant 1 <= vi_0 <= vn_0 + 1, vn_0 <= 0x1000_0000_0000_0000, vo_0@.len() == vi_0 - 1,
    forall|e: int, y: int| 0 <= e < vi_0 - 1 ==> congr(#[trigger] peval(vo_0@[e]@, y), exempt_powers(root@, e + 1, y)),
decreases vn_0 + 1 - vi_0
//@ loop 1
invariant 1 <= vi_1 <= vn_1 + 1, vn_1 == vj_0, forall|y: int| congr(#[trigger] peval(va_1@, y), exempt_powers(root@, vi_1 - 1, y)),
decreases vn_1 + 1 - vi_1
//@ loopstart 1
let ghost pre = va_1@;
//@ loopend 1
proof {
    let r = ipow(root@, vj_1 as nat); let e = vj_1 - 1;
    assert forall|p: Polynomial<FE>, y: int| congr(#[trigger] peval(p@, y), y - r) implies congr(peval(pre, y) * peval(p@, y), exempt_powers(root@, e, y) * (y - r)) by {
        assert(congr(peval(pre, y), exempt_powers(root@, e, y)));
        lemma_congr_mul(peval(pre, y), exempt_powers(root@, e, y), peval(p@, y), y - r);
    }
    assert forall|y: int| congr(#[trigger] peval(x@, y), y) by { lemma_ipow_1(y); assert(1 * y == y); assert(congr(peval(x@, y), 1 * ipow(y, 1))); }
    assert forall|y: int| congr(#[trigger] peval(x@, y) - r, y - r) by { assert(congr(peval(x@, y), y)); lemma_congr_add(peval(x@, y), y, r, r); }
}
//@ fn starks/verifier.rs step_2_verify_claimed_composition_polynomial {"types": {"vo_1_0": "Vec<FE>", "vo_1_1": "Vec<FE>", "vo_2": "Vec<(FE, FE)>", "vo_4": "Vec<FE>", "vo_5": "Vec<FE>"}}
requires
    lawful(air), domain_of(*domain, air), is_pow2(air.s_trace_length()), 2 <= air.s_trace_length(), 1 <= log2(air.s_trace_length()) <= two_adicity(), log2(air.s_trace_length()) <= 60,
    !in_domains(challenges.z@, domain.lde_roots_of_unity_coset@, domain.trace_roots_of_unity@),
    proof.trace_ood_frame_evaluations.row_width == air.s_ctx().trace_columns, proof.trace_ood_frame_evaluations.data@.len() == air.s_ctx().transition_offsets@.len() * air.s_ctx().trace_columns,
    challenges.boundary_coeffs@.len() == air.s_boundary(challenges.rap_challenges).constraints@.len(), challenges.transition_coeffs@.len() == n_transition(air),
ensures ret == composition_accepts(air, *proof, *challenges),
//@ bodystart
let ghost n = air.s_trace_length(); let ghost k = log2(air.s_trace_length()); let ghost g = omega(log2(air.s_trace_length())); let ghost rap = challenges.rap_challenges;
let ghost cs = air.s_boundary(challenges.rap_challenges).constraints@; let ghost data = proof.trace_ood_frame_evaluations.data@; let ghost row = reps(proof.trace_ood_frame_evaluations.data@);
let ghost cols = air.s_ctx().trace_columns as int; let ghost z = challenges.z@; let ghost bc = challenges.boundary_coeffs@; let ghost tc = challenges.transition_coeffs@; let ghost nt = n_transition(air);
let ghost ev = air.s_transition(reps(proof.trace_ood_frame_evaluations.data@), challenges.rap_challenges);
proof {
    lemma_log2_bound(n); lemma_ipow2_mono(k as nat, 60); assert(ipow(2, 60) == 0x1000_0000_0000_0000) by (compute);
    assert(cols <= air.s_ctx().transition_offsets@.len() * cols) by (nonlinear_arith) requires air.s_ctx().transition_offsets@.len() >= 1, cols >= 1;
    assert forall|i: int| !is_root(z, k, i) by { if is_root(z, k, i) { assert(congr(domain.trace_roots_of_unity@[i]@, ipow(g, i as nat))); } }
    lemma_zerofier_nonzero(z, k);
}
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == cs.len(), va_0 == !(forall|i: int| 0 <= i < vi_0 ==> (#[trigger] cs[i]).step < n),
decreases vn_0 - vi_0 + (if va_0 { 0int } else { 1 })
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == cs.len(), vo_2@.len() == vi_2, forall|i: int| 0 <= i < vi_2 ==> (#[trigger] vo_2@[i]).0@ == data[cs[i].col as int]@ - cs[i].value@ && vo_2@[i].1@ == z - ipow(g, cs[i].step as nat),
decreases vn_2 - vi_2
//@ loopstart 2
proof { let c = cs[vi_2 as int].col as int; assert(c < cols); assert(gcell(data, cols, 0, c) == data[c]) by { assert(0 * cols == 0); } assert((0int + 1) * cols == cols) by (nonlinear_arith); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == cs.len(), vo_1_0@.len() == vi_1, vo_1_1@.len() == vi_1,
    forall|i: int| 0 <= i < vi_1 ==> (#[trigger] vo_1_0@[i])@ == data[cs[i].col as int]@ - cs[i].value@, forall|i: int| 0 <= i < vi_1 ==> (#[trigger] vo_1_1@[i])@ == z - ipow(g, cs[i].step as nat),
decreases vn_1 - vi_1
//@ let boundary_c_i_evaluations_num
let ghost dens = boundary_c_i_evaluations_den@;
proof {
    assert forall|i: int| #![auto] 0 <= i < dens.len() implies !congr(dens[i]@, 0) by {
        let s = cs[i].step as int; assert(s < n); assert(congr(domain.trace_roots_of_unity@[s]@, ipow(g, s as nat)));
        assert(dens[i]@ == z - ipow(g, s as nat)); lemma_congr_sub_zero(z, ipow(g, s as nat));
    }
}
//@ let max_degree
proof { let m = *max_degree as int; assert(n * (m - 1) <= air.s_bound()); assert(m - 1 <= air.s_bound() / 2) by (nonlinear_arith) requires n * (m - 1) <= air.s_bound(), n >= 2, m >= 1; }
//@ let boundary_degree_z
let ghost adj = air.s_bound() - n;
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == cs.len(), congr(va_3@, bsum(cs, row, z, g, adj, bc, vi_3 as int)),
decreases vn_3 - vi_3
//@ loopstart 3
let ghost pre3 = va_3@;
proof {
    let i = vi_3 as int; let t = bsum(cs, row, z, g, adj, bc, i); let c = cs[i].col as int; let p = ipow(g, cs[i].step as nat); let d = boundary_c_i_evaluations_den@[i]@; let w = bc[i].0@ * ipow(z, adj as nat) + bc[i].1@;
    assert(congr(d * dens[i]@, 1)); assert(d * dens[i]@ == dens[i]@ * d) by (nonlinear_arith); lemma_finv(z - p, d);
    broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_mod_twice(data[c]@, P()); assert(congr(data[c]@, row[c]));
    lemma_congr_add(data[c]@, row[c], cs[i].value@, cs[i].value@);
    lemma_bterm(pre3, t, data[c]@ - cs[i].value@, row[c] - cs[i].value@, d, finv(z - p), w);
}
//@ loop 4
invariant vi_4 <= vn_4, vn_4 == vsrc_4_0@.len(), vo_4@.len() == vi_4, forall|e: int| 0 <= e < vi_4 ==> (#[trigger] vo_4@[e])@ == peval(vsrc_4_0@[e]@, z),
    forall|i: int| 0 <= i < nt ==> (#[trigger] air.s_ctx().transition_exemptions@[i]) <= vsrc_4_0@.len(),
    forall|e: int, x: int| 0 <= e < vsrc_4_0@.len() ==> congr(#[trigger] peval(vsrc_4_0@[e]@, x), exempt_powers(domain.trace_roots_of_unity@[n - 1]@, e + 1, x)),
decreases vn_4 - vi_4
//@ let exemption
let ghost root = domain.trace_roots_of_unity@[n - 1]@;
proof {
    assert(forall|e: int| 0 <= e < exemption@.len() ==> congr((#[trigger] exemption@[e])@, exempt_powers(root, e + 1, z)));
}
//@ loop 5
invariant 1 <= vi_5 <= vn_5 + 1, vn_5 == *max_degree, vo_5@.len() == vi_5 - 1, forall|e: int| 0 <= e < vi_5 - 1 ==> (#[trigger] vo_5@[e])@ == ipow(z, adjust(air.s_bound(), n, e + 1)),
decreases vn_5 + 1 - vi_5
//@ loopstart 5
proof { let m = *max_degree as int; let v = vi_5 as int; assert(n * (v - 1) <= n * (m - 1) && n * (v - 1) >= 0) by (nonlinear_arith) requires 1 <= v <= m, n >= 1; }
//@ before 6
proof { lemma_finv(ipow(z, n as nat) - 1, denominator@); }
//@ loop 6
invariant vi_6 <= vn_6, vn_6 == nt, congr(va_6@, tsum(air.s_ctx(), ev, z, g, n, air.s_bound(), tc, vi_6 as int)),
decreases vn_6 - vi_6
//@ loopstart 6
proof {
    let i = vi_6 as int; let d = air.s_ctx().transition_degrees@[i]; let e = air.s_ctx().transition_exemptions@[i] as int;
    assert(1 <= d && d <= *max_degree);
    let w = tc[i].0@ * ipow(z, adjust(air.s_bound(), n, d as int)) + tc[i].1@;
    assert(congr(domain.trace_roots_of_unity@[n - 1]@, ipow(g, (n - 1) as nat)));
    lemma_exempt(k, n, root, e, z);
    let ex = if e == 0 { 1int } else { exemption@[e - 1]@ };
    assert(congr(ex, exempt(z, g, n, e)));
    assert(congr(transition_ood_frame_evaluations@[i]@, ev[i]));
    lemma_tterm(va_6@, tsum(air.s_ctx(), ev, z, g, n, air.s_bound(), tc, i), denominator@, finv(ipow(z, n as nat) - 1), transition_ood_frame_evaluations@[i]@, ev[i], w, ex, exempt(z, g, n, e));
}
//@ after 6
proof { lemma_congr_add(boundary_quotient_ood_evaluation@, bsum(cs, row, z, g, adj, bc, cs.len() as int), va_6@, tsum(air.s_ctx(), ev, z, g, n, air.s_bound(), tc, nt)); }
