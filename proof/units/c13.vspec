//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include trans.rs
//@ include fri.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Round1": "Round1!", "Challenges": "Challenges!"}, "methods": {"to_be_bytes": "vx_to_be", "verify": "vx_verify"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/frame.rs Frame
//@ item starks/trace.rs TraceTable
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/proof/stark.rs StarkProof
//@ item starks/verifier.rs Challenges
//@ item starks/prover.rs Round1
//@ item starks/prover.rs Round2
//@ item starks/prover.rs Round3
//@ include table.rs
//@ include air.rs
//@ include airx.rs
//@ include verif.rs
//@ include deep.rs
//@ include deepv.rs
//@ use c08 TraceTable::get_row
//@ fn starks/prover.rs compute_deep_composition_poly
requires
    air.s_ctx().transition_offsets@.len() >= 1, trace_terms_gammas@.len() == air.s_ctx().transition_offsets@.len() * trace_polys@.len(),
    frame_true(trace_polys@, round_3_result.trace_ood_evaluations@, air.s_ctx().transition_offsets@, z@, primitive_root@),
    congr(round_3_result.composition_poly_even_ood_evaluation@, peval(round_2_result.composition_poly_even@, z@ * z@)), congr(round_3_result.composition_poly_odd_ood_evaluation@, peval(round_2_result.composition_poly_odd@, z@ * z@)),
ensures
    forall|x: int| regular(x, z@, primitive_root@, air.s_ctx().transition_offsets@) ==> congr(#[trigger] peval(ret@, x),
        half_term(round_2_result.composition_poly_even@, round_3_result.composition_poly_even_ood_evaluation@, z@ * z@, x, composition_poly_gammas@[0]@)
        + half_term(round_2_result.composition_poly_odd@, round_3_result.composition_poly_odd_ood_evaluation@, z@ * z@, x, composition_poly_gammas@[1]@)
        + deep_pcols(trace_polys@, round_3_result.trace_ood_evaluations@, air.s_ctx().transition_offsets@, z@, primitive_root@, x, trace_terms_gammas@, trace_polys@.len() as int)),
    forall|l: int| #[trigger] lens_within(trace_polys@, round_2_result.composition_poly_even@, round_2_result.composition_poly_odd@, l) ==> ret@.len() <= l - 1,
//@ bodystart
let ghost offs = air.s_ctx().transition_offsets@; let ghost g = primitive_root@; let ghost zz = z@; let ghost ev = round_3_result.trace_ood_evaluations@; let ghost gam = trace_terms_gammas@; let ghost t = trace_polys@; let ghost (h1, h2) = (round_2_result.composition_poly_even@, round_2_result.composition_poly_odd@); let ghost m = air.s_ctx().transition_offsets@.len() as int;
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == t.len(), forall|x: int| regular(x, zz, g, offs) ==> congr(#[trigger] peval(va_0@, x), deep_pcols(t, ev, offs, zz, g, x, gam, vi_0 as int)),
    forall|l: int| #[trigger] lens_within(t, h1, h2, l) ==> va_0@.len() <= l - 1,
decreases vn_0 - vi_0
//@ loopstart 0
let ghost pre0 = va_0@;
proof { assert(trace_terms_gammas.len() as int == gam.len()); assert(vi_0 * m <= t.len() * m && vi_0 * m + m <= t.len() * m && vi_0 * m >= 0) by (nonlinear_arith) requires 0 <= vi_0 < t.len(), m >= 1; assert(m * t.len() == t.len() * m) by (nonlinear_arith); assert forall|k: int| 0 <= k < m implies (#[trigger] ev[k])@.len() == t.len() by { let u = peval(t[vi_0 as int]@, shifted(zz, g, offs, k)); } }
//@ loopend 0
proof {
    assert forall|b: Polynomial<FE>, x: int| regular(x, zz, g, offs) && congr(#[trigger] peval(b@, x), deep_prow(peval(t[vj_0 as int]@, x), vj_0 as int, ev, offs, zz, g, x, gam, vj_0 * m, m))
        implies congr(peval(pre0, x) + peval(b@, x), deep_pcols(t, ev, offs, zz, g, x, gam, vj_0 + 1)) by {
        lemma_congr_add(peval(pre0, x), deep_pcols(t, ev, offs, zz, g, x, gam, vj_0 as int), peval(b@, x), deep_prow(peval(t[vj_0 as int]@, x), vj_0 as int, ev, offs, zz, g, x, gam, vj_0 * m, m));
    }
}
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == m, vi_0 == vj_0 + 1, forall|x: int| regular(x, zz, g, offs) ==> congr(#[trigger] peval(va_1@, x), deep_prow(peval(t[vj_0 as int]@, x), vj_0 as int, ev, offs, zz, g, x, gam, vj_0 * m, vi_1 as int)),
    forall|l: int| #[trigger] lens_within(t, h1, h2, l) ==> va_1@.len() <= l - 1,
decreases vn_1 - vi_1
//@ loopstart 1
let ghost pre1 = va_1@; let ghost k = vi_1 as int; let ghost c = gam[vj_0 * m + vi_1]@;
//@ let poly
proof {
    let b = shifted(zz, g, offs, k); let v = ev[k]@[i as int]@; let p = t[i as int]@;
    assert(z_shifted@ == b);
    lemma_congr_sub_zero(peval(p, b), v); assert(congr(peval(poly@, b), peval(p, b) - v));
    assert forall|q: Polynomial<FE>, x: int| regular(x, zz, g, offs) && congr(peval(poly@, x), (x - b) * #[trigger] peval(q@, x) + peval(poly@, b)) implies congr(peval(q@, x) * c, ((peval(p, x) - v) * finv(x - b)) * c) by {
        assert(congr(peval(poly@, x), peval(p, x) - v));
        assert(!congr(x - b, 0));
        lemma_quotient(peval(p, x) - v, x - b, peval(q@, x), peval(poly@, b));
        lemma_congr_mul(peval(q@, x), (peval(p, x) - v) * finv(x - b), c, c);
    }
}
//@ loopend 1
proof {
    let i = vj_0 as int; let b = shifted(zz, g, offs, k); let v = ev[k]@[i]@; let p = t[i]@;
    assert forall|q: Polynomial<FE>, x: int| regular(x, zz, g, offs) && congr(#[trigger] peval(q@, x), ((peval(p, x) - v) * finv(x - b)) * c)
        implies congr(peval(pre1, x) + peval(q@, x), deep_prow(peval(p, x), i, ev, offs, zz, g, x, gam, i * m, k + 1)) by {
        lemma_congr_add(peval(pre1, x), deep_prow(peval(p, x), i, ev, offs, zz, g, x, gam, i * m, k), peval(q@, x), ((peval(p, x) - v) * finv(x - b)) * c);
    }
}
//@ let h_1_term
proof {
    let c = composition_poly_gammas@[0]@; let v = h_1_z2@;
    assert forall|d: Polynomial<FE>, x: int| congr(#[trigger] peval(d@, x), peval(h1, x) - v) implies congr(c * peval(d@, x), c * (peval(h1, x) - v)) by { lemma_congr_mul(c, c, peval(d@, x), peval(h1, x) - v); }
    assert(forall|x: int| congr(#[trigger] peval(h_1_term@, x), c * (peval(h1, x) - v)));
}
let ghost p1 = h_1_term@;
//@ let h_2_term
proof {
    let c = composition_poly_gammas@[1]@; let v = h_2_z2@;
    assert forall|d: Polynomial<FE>, x: int| congr(#[trigger] peval(d@, x), peval(h2, x) - v) implies congr(c * peval(d@, x), c * (peval(h2, x) - v)) by { lemma_congr_mul(c, c, peval(d@, x), peval(h2, x) - v); }
    assert(forall|x: int| congr(#[trigger] peval(h_2_term@, x), c * (peval(h2, x) - v)));
}
let ghost p2 = h_2_term@; let ghost q1 = h_1_term@;
//@ let transition_offsets
let ghost q2 = h_2_term@;
proof {
    let (v1, v2) = (h_1_z2@, h_2_z2@); let b = zz * zz; let (g0, g1) = (composition_poly_gammas@[0]@, composition_poly_gammas@[1]@);
    assert forall|x: int| regular(x, zz, g, offs) implies congr(#[trigger] peval(q1, x), half_term(h1, v1, b, x, g0)) by { lemma_half(p1, q1, h1, v1, b, x, g0); }
    assert forall|x: int| regular(x, zz, g, offs) implies congr(#[trigger] peval(q2, x), half_term(h2, v2, b, x, g1)) by { lemma_half(p2, q2, h2, v2, b, x, g1); }
}
//@ let trace_term
let ghost tt = trace_term@;
//@ tail
proof {
    let (v1, v2) = (h_1_z2@, h_2_z2@); let b = zz * zz; let (g0, g1) = (composition_poly_gammas@[0]@, composition_poly_gammas@[1]@); 
    assert forall|u: Polynomial<FE>, x: int| congr(#[trigger] peval(u@, x), peval(q1, x) + peval(q2, x)) implies congr(peval(u@, x) + peval(tt, x), peval(q1, x) + peval(q2, x) + peval(tt, x)) by { lemma_congr_add(peval(u@, x), peval(q1, x) + peval(q2, x), peval(tt, x), peval(tt, x)); }
    assert forall|x: int| regular(x, zz, g, offs) implies congr(#[trigger] peval(vx_tail@, x), half_term(h1, v1, b, x, g0) + half_term(h2, v2, b, x, g1) + deep_pcols(t, ev, offs, zz, g, x, gam, t.len() as int)) by {
        lemma_congr_add(peval(q1, x), half_term(h1, v1, b, x, g0), peval(q2, x), half_term(h2, v2, b, x, g1));
        lemma_congr_add(peval(q1, x) + peval(q2, x), half_term(h1, v1, b, x, g0) + half_term(h2, v2, b, x, g1), peval(tt, x), deep_pcols(t, ev, offs, zz, g, x, gam, t.len() as int));
        assert(congr(peval(vx_tail@, x), peval(q1, x) + peval(q2, x) + peval(tt, x)));
    }
}
//@ fn starks/prover.rs open_deep_composition_poly {"types": {"vo_0": "Vec<DeepPolynomialOpenings>", "vo_1": "Vec<Proof>"}}
requires
    domain.lde_roots_of_unity_coset@.len() >= 1, committed(*round_1_result, *round_2_result, domain.lde_roots_of_unity_coset@.len() as int),
    forall|s: int| 0 <= s < indexes_to_open@.len() ==> (#[trigger] indexes_to_open@[s]) < domain.lde_roots_of_unity_coset@.len(),
ensures ret@.len() == indexes_to_open@.len(), forall|s: int| 0 <= s < ret@.len() ==> opens_row(#[trigger] ret@[s], *round_1_result, *round_2_result, indexes_to_open@[s] as int),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == indexes_to_open@.len(), vo_0@.len() == vi_0, forall|s: int| 0 <= s < vi_0 ==> opens_row(#[trigger] vo_0@[s], *round_1_result, *round_2_result, indexes_to_open@[s] as int),
decreases vn_0 - vi_0
//@ loopstart 0
proof { lemma_small_index(indexes_to_open@[vi_0 as int] as int, domain.lde_roots_of_unity_coset@.len() as int); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == round_1_result.lde_trace_merkle_trees@.len(), vo_1@.len() == vi_1, index == indexes_to_open@[vj_0 as int],
    forall|k: int| 0 <= k < vi_1 ==> path_fits(vo_1@[k], round_1_result.lde_trace_merkle_trees@[k].leaves@.len() as int) && opens(hashes((#[trigger] vo_1@[k]).merkle_path@), round_1_result.lde_trace_merkle_trees@[k].root@, index as int, round_1_result.lde_trace_merkle_trees@[k].leaves@[index as int]),
decreases vn_1 - vi_1
