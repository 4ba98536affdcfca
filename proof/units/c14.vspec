//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include field.rs
//@ include trans.rs
//@ include fri.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Challenges": "Challenges!"}, "methods": {"to_be_bytes": "vx_to_be", "verify": "vx_verify"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/frame.rs Frame
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/proof/stark.rs StarkProof
//@ item starks/verifier.rs Challenges
//@ include cell.rs
//@ include air.rs
//@ include airx.rs
//@ include verif.rs
//@ use c08 Frame::num_rows
//@ use c08 Frame::num_columns
//@ use c08 Frame::has_shape
//@ use c08 Frame::get_row
//@ fn starks/verifier.rs verify_query_and_sym_openings {"bool_and": true, "types": {"domain_length": "usize", "vo_0": "Vec<FE>"}}
requires query_shape(*fri_decommitment, proof.fri_layers_merkle_roots@.len() as int), proof.fri_layers_merkle_roots@.len() >= 1, zetas@.len() == proof.fri_layers_merkle_roots@.len(),
    proof.fri_layers_merkle_roots@.len() <= domain.lde_root_order <= 60, iota < ipow(2, domain.lde_root_order as nat),
ensures ret == query_accepts(*proof, *fri_decommitment, zetas@, iota as int, domain.lde_root_order as int, evaluation_point@, two_inv@),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == fri_layers_merkle_roots@.len(), vo_0@.len() == vi_0, vs_0@ == sq(evaluation_point@, vi_0 as int),
    forall|k: int| 0 <= k < vi_0 ==> (#[trigger] vo_0@[k])@ == sq(evaluation_point@, k),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == proof.fri_layers_merkle_roots@.len(), v@ == fold_value(*fri_decommitment, zetas@, evaluation_point@, two_inv@, vi_1 as int),
    va_1 == (forall|k: int| 0 <= k < vi_1 ==> #[trigger] layer_accepts(*proof, *fri_decommitment, zetas@, iota as int, domain.lde_root_order as int, evaluation_point@, two_inv@, k)),
decreases vn_1 - vi_1
//@ loopstart 1
proof { lemma_shl((domain.lde_root_order - vi_1) as u32); lemma_shl(domain.lde_root_order); lemma_ipow2_mono((domain.lde_root_order - vi_1) as nat, domain.lde_root_order as nat); lemma_ipow2_mono(domain.lde_root_order as nat, 60); assert(ipow(2, 60) == 0x1000_0000_0000_0000) by (compute); }
//@ loopend 1
proof { assert(va_1 == (result && layer_accepts(*proof, *fri_decommitment, zetas@, iota as int, domain.lde_root_order as int, evaluation_point@, two_inv@, vj_1 as int))); }
//@ fn starks/verifier.rs reconstruct_deep_composition_poly_evaluation
requires i < proof.deep_poly_openings@.len(), ({ let f = proof.trace_ood_frame_evaluations; f.row_width > 0 && f.data@.len() == divisors@.len() * f.row_width
    && proof.deep_poly_openings@[i as int].lde_trace_evaluations@.len() == f.row_width && challenges.trace_term_coeffs@.len() == f.row_width
    && forall|k: int| 0 <= k < f.row_width ==> (#[trigger] challenges.trace_term_coeffs@[k])@.len() == divisors@.len() }),
ensures ret@ == deep_value(*proof, proof.deep_poly_openings@[i as int], challenges.trace_term_coeffs@, challenges.gamma_even@, challenges.gamma_odd@, denom_inv@, lifts(divisors@), divisors@.len() as int),
//@ bodystart
let ghost f = proof.trace_ood_frame_evaluations; let ghost row = proof.deep_poly_openings@[i as int].lde_trace_evaluations@; let ghost div = lifts(divisors@); let ghost m = divisors@.len() as int;
proof { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(m, f.row_width as int); assert(m * f.row_width == f.row_width * m) by (nonlinear_arith); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == f.row_width, va_0@ == deep_cols(row, f, challenges.trace_term_coeffs@, div, m, vi_0 as int),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == m, vi_0 == vj_0 + 1, va_1@ == deep_rows(row[vj_0 as int]@, f, vj_0 as int, coeff_row@, div, vi_1 as int),
decreases vn_1 - vi_1
//@ loopstart 1
proof { assert(f.data.len() as int == f.data@.len()); assert((vi_1 + 1) * f.row_width <= m * f.row_width) by (nonlinear_arith) requires vi_1 + 1 <= m; assert(0 <= vi_1 * f.row_width) by (nonlinear_arith); assert((vi_1 + 1) * f.row_width == vi_1 * f.row_width + f.row_width) by (nonlinear_arith); }
//@ fn starks/verifier.rs step_3_verify_fri {"bool_and": true, "byval": ["evaluation_point_inverse"], "types": {"vo_0": "Vec<FE>"}}
requires
    proof.query_list@.len() == challenges.iotas@.len(), challenges.zetas@.len() == proof.fri_layers_merkle_roots@.len(), 1 <= proof.fri_layers_merkle_roots@.len() <= domain.lde_root_order <= 60,
    domain.lde_roots_of_unity_coset@.len() == ipow(2, domain.lde_root_order as nat),
    forall|s: int| 0 <= s < challenges.iotas@.len() ==> (#[trigger] challenges.iotas@[s]) < domain.lde_roots_of_unity_coset@.len(),
    forall|s: int| 0 <= s < proof.query_list@.len() ==> query_shape(#[trigger] proof.query_list@[s], proof.fri_layers_merkle_roots@.len() as int),
    forall|i: int| 0 <= i < domain.lde_roots_of_unity_coset@.len() ==> !congr((#[trigger] domain.lde_roots_of_unity_coset@[i])@, 0),
ensures ret == all_queries(*proof, *domain, *challenges),
//@ bodystart
proof { lemma_congr_zero(); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == challenges.iotas@.len(), vo_0@.len() == vi_0, forall|s: int| 0 <= s < vi_0 ==> #[trigger] vo_0@[s] == domain.lde_roots_of_unity_coset@[challenges.iotas@[s] as int],
decreases vn_0 - vi_0
//@ let evaluation_point_inverse
let ghost points = evaluation_point_inverse@;
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == challenges.iotas@.len(), va_1 == (forall|s: int| 0 <= s < vi_1 ==> #[trigger] one_query(*proof, *domain, *challenges, s)),
decreases vn_1 - vi_1
//@ loopend 1
proof {
    let s = vj_1 as int; let x = domain.lde_roots_of_unity_coset@[challenges.iotas@[s] as int]@;
    assert(points[s]@ == x); assert(congr(eval@ * points[s]@, 1)); assert(eval@ * x == x * eval@) by (nonlinear_arith);
    lemma_finv(x, eval@); lemma_finv(2, two_inv@);
    lemma_query_congr(*proof, *proof_s, challenges.zetas@, *iota_s as int, domain.lde_root_order as int, eval@, finv(x), two_inv@, finv(2));
    assert(one_query(*proof, *domain, *challenges, s) == query_accepts(*proof, *proof_s, challenges.zetas@, *iota_s as int, domain.lde_root_order as int, eval@, two_inv@));
}
//@ fn starks/verifier.rs step_4_verify_deep_composition_polynomial {"bool_and": true, "types": {"vo_0": "Vec<FE>", "vo_3": "Vec<FE>"}}
requires
    lawful(air), shape_ok(air, *proof), challenges_shape(air, *proof, *domain, *challenges), 1 <= domain.root_order <= two_adicity(),
    forall|s: int| 0 <= s < challenges.iotas@.len() ==> deep_defined(air, *domain, *challenges, #[trigger] challenges.iotas@[s] as int),
    forall|s: int| 0 <= s < proof.query_list@.len() ==> (#[trigger] proof.query_list@[s]).layers_evaluations@.len() > 0,
ensures ret == all_openings(air, *proof, *domain, *challenges),
//@ bodystart
let ghost offs = air.s_ctx().transition_offsets@; let ghost m = air.s_ctx().transition_offsets@.len() as int; let ghost main = air.s_ctx().trace_columns - air.s_naux();
let ghost xs = domain.lde_roots_of_unity_coset@;
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == challenges.iotas@.len(), vo_0@.len() == vi_0, forall|s: int| 0 <= s < vi_0 ==> (#[trigger] vo_0@[s])@ == xs[challenges.iotas@[s] as int]@ - challenges.z@ * challenges.z@,
decreases vn_0 - vi_0
//@ let denom_inv
let ghost dens = denom_inv@;
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == challenges.iotas@.len(), va_1 == (forall|s: int| 0 <= s < vi_1 ==> #[trigger] opening_accepts(air, *proof, *domain, *challenges, s)),
decreases vn_1 - vi_1
//@ loopstart 1
let ghost s = vi_1 as int; let ghost pre = va_1; let ghost o = proof.deep_poly_openings@[s]; let ghost row = proof.deep_poly_openings@[s].lde_trace_evaluations@; let ghost iota = challenges.iotas@[s] as int;
proof { assert(deep_defined(air, *domain, *challenges, iota)); assert(opening_shape(o, proof.lde_trace_merkle_roots@.len() as int, o.lde_composition_poly_proof.merkle_path@.len() as int, air.s_ctx().trace_columns as int)); }
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == proof.lde_trace_merkle_roots@.len(), vn_2 == 1 || vn_2 == 2, lde_trace_evaluations@.len() == 2,
    lde_trace_evaluations@[0]@ == row.subrange(0, main), lde_trace_evaluations@[1]@ == row.subrange(main, row.len() as int),
    va_2 == (result && forall|k: int| 0 <= k < vi_2 ==> #[trigger] opens(hashes(o.lde_trace_merkle_proofs@[k].merkle_path@), proof.lde_trace_merkle_roots@[k]@, iota, reps(lde_trace_evaluations@[k]@))),
decreases vn_2 - vi_2
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == m, vo_3@.len() == vi_3, forall|k: int| 0 <= k < vi_3 ==> (#[trigger] vo_3@[k])@ == xs[iota]@ - challenges.z@ * ipow(primitive_root@, offs[k] as nat),
decreases vn_3 - vi_3
//@ let divisors
let ghost divs = divisors@;
//@ let deep_poly_claimed_evaluation
proof {
    let x = xs[iota]@; let z = challenges.z@; let fs = deep_divisors(x, z, omega(domain.root_order as int), offs);
    assert(dens[s]@ == x - z * z); assert(congr(denom_inv@ * dens[s]@, 1)); assert(denom_inv@ * dens[s]@ == dens[s]@ * denom_inv@) by (nonlinear_arith); lemma_finv(dens[s]@, denom_inv@);
    assert forall|k: int| 0 <= k < m implies congr(#[trigger] lifts(divisors@)[k], fs[k]) by {
        assert(divs[k]@ == x - z * ipow(primitive_root@, offs[k] as nat)); assert(congr(divisors@[k]@ * divs[k]@, 1)); assert(divisors@[k]@ * divs[k]@ == divs[k]@ * divisors@[k]@) by (nonlinear_arith); lemma_finv(divs[k]@, divisors@[k]@);
    }
    lemma_deep_congr(*proof, o, challenges.trace_term_coeffs@, challenges.gamma_even@, challenges.gamma_odd@, denom_inv@, finv(dens[s]@), lifts(divisors@), fs, m);
    assert(reps(evaluations@) =~= seq![rep(o.lde_composition_poly_even_evaluation), rep(o.lde_composition_poly_odd_evaluation)]);
    let roots = proof.lde_trace_merkle_roots@;
    assert((forall|k: int| 0 <= k < roots.len() ==> #[trigger] opens(hashes(o.lde_trace_merkle_proofs@[k].merkle_path@), roots[k]@, iota, reps(lde_trace_evaluations@[k]@)))
        == (opens(hashes(o.lde_trace_merkle_proofs@[0].merkle_path@), roots[0]@, iota, reps(lde_trace_evaluations@[0]@)) && (roots.len() == 2 ==> opens(hashes(o.lde_trace_merkle_proofs@[1].merkle_path@), roots[1]@, iota, reps(lde_trace_evaluations@[1]@)))));
    assert((result && congr(deep_poly_claimed_evaluation@, deep_poly_evaluation@)) == (pre && opening_accepts(air, *proof, *domain, *challenges, s)));
}
//@ fn starks/verifier.rs trace_length_is_supported
ensures ret == length_ok(trace_length as int, proof_options.blowup_factor as int),
//@ fn starks/verifier.rs proof_has_expected_shape
requires proof.trace_length > 0, air.s_options().blowup_factor > 0,
ensures ret == shape_ok(air, *proof),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == proof.query_list@.len(), va_0 == (forall|s: int| 0 <= s < vi_0 ==> query_ok(#[trigger] proof.query_list@[s], number_of_layers as int, lde_path_length as int)),
decreases vn_0 - vi_0 + (if va_0 { 1int } else { 0 })
//@ loopstart 0
let ghost q = proof.query_list@[vi_0 as int];
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == paths@.len(), paths@ == q.layers_auth_paths@, va_1 == (forall|k: int| 0 <= k < vi_1 ==> (#[trigger] paths@[k]).merkle_path@.len() == lde_path_length - k),
decreases vn_1 - vi_1
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == paths@.len(), paths@ == q.layers_auth_paths_sym@, va_2 == (forall|k: int| 0 <= k < vi_2 ==> (#[trigger] paths@[k]).merkle_path@.len() == lde_path_length - k),
decreases vn_2 - vi_2
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == proof.deep_poly_openings@.len(), va_3 == (forall|s: int| 0 <= s < vi_3 ==> opening_shape(#[trigger] proof.deep_poly_openings@[s], number_of_roots as int, lde_path_length as int, context.trace_columns as int)),
decreases vn_3 - vi_3
//@ loopstart 3
let ghost o = proof.deep_poly_openings@[vi_3 as int];
//@ loop 4
invariant vi_4 <= vn_4, vn_4 == o.lde_trace_merkle_proofs@.len(), va_4 == (forall|k: int| 0 <= k < vi_4 ==> (#[trigger] o.lde_trace_merkle_proofs@[k]).merkle_path@.len() == lde_path_length),
decreases vn_4 - vi_4
