//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Round1": "Round1!", "BatchedMerkleTree": "BatchedMerkleTree!", "ConstraintEvaluator": "ConstraintEvaluator!"}, "methods": {"to_be_bytes": "vx_to_be"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/constraints/evaluator.rs ConstraintEvaluator
//@ item starks/constraints/evaluation_table.rs ConstraintEvaluationTable
//@ item starks/frame.rs Frame
//@ item starks/trace.rs TraceTable
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/prover.rs Round1
//@ item starks/prover.rs Round2
//@ item starks/prover.rs Round3
//@ include table.rs
//@ include traces.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include comp.rs
//@ include eval.rs
//@ include rounds.rs
//@ include deep.rs
//@ include prover.rs
//@ use c11 evaluate_polynomial_on_lde_domain
//@ use c10e ConstraintEvaluator::evaluate
//@ use c16p batch_commit
//@ use c08 Frame::get_trace_evaluations
//@ fn starks/constraints/evaluator.rs ConstraintEvaluator::new
ensures ret.air == *air, ret.boundary_constraints == air.s_boundary(*rap_challenges),
//@ fn starks/constraints/evaluation_table.rs ConstraintEvaluationTable::compute_composition_poly
requires is_pow2(self.evaluations_acc@.len() as int), log2(self.evaluations_acc@.len() as int) <= two_adicity(), !congr(offset@, 0),
ensures ret@.len() <= self.evaluations_acc@.len(), forall|i: int| 0 <= i < self.evaluations_acc@.len() ==> congr(peval(ret@, offset@ * ipow(omega(log2(self.evaluations_acc@.len() as int)), i as nat)), (#[trigger] self.evaluations_acc@[i])@),
//@ fn starks/prover.rs round_2_compute_composition_polynomial {"types": {"vo_0": "Vec<Vec<FE>>"}}
requires provable(air, *domain), round_1_result.lde_trace.wf(), round_1_result.lde_trace.nr() == size_of(*domain), round_1_result.lde_trace.n_cols == air.s_ctx().trace_columns,
    boundary_coeffs@.len() == air.s_boundary(round_1_result.rap_challenges).constraints@.len(), transition_coeffs@.len() == n_transition(air),
ensures round2_ok(air, *domain, *round_1_result, boundary_coeffs@, transition_coeffs@, ret),
//@ bodystart
let ghost n = air.s_trace_length(); let ghost b = air.s_options().blowup_factor as int; let ghost size = size_of(*domain); let ghost h = domain.coset_offset@;
proof { lemma_pow2_mul(n, b); lemma_next_pow2(n); }
//@ let constraint_evaluations
proof { assert(constraint_evaluations.evaluations_acc@.len() == size); }
//@ let composition_poly
let ghost cp = composition_poly@;
//@ let composition_poly_odd
let ghost (e, o) = (composition_poly_even@, composition_poly_odd@);
proof {
    assert(size % 2 == 0) by { assert(size > 1); }
    assert(2 * e.len() <= size && 2 * o.len() <= size);
    assert forall|i: int| 0 <= i < size implies congr(halves_at(e, o, #[trigger] lde_point(*domain, i)), eval_at(air, round_1_result.rap_challenges, round_1_result.lde_trace, *domain, i, boundary_coeffs@, transition_coeffs@)) by {
        assert(congr(peval(cp, lde_point(*domain, i)), constraint_evaluations.evaluations_acc@[i]@));
    }
    lemma_half_len(e.len() as int, n, b); lemma_half_len(o.len() as int, n, b);
}
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == size, lde_composition_poly_even_evaluations@.len() == size, lde_composition_poly_odd_evaluations@.len() == size, vo_0@.len() == vi_0,
    forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0@[i])@.len() == 2 && vo_0@[i]@[0] == lde_composition_poly_even_evaluations@[i] && vo_0@[i]@[1] == lde_composition_poly_odd_evaluations@[i],
decreases vn_0 - vi_0
//@ let composition_poly_root
proof {
    let (ve, vo) = (lde_composition_poly_even_evaluations@, lde_composition_poly_odd_evaluations@); let l = composition_poly_merkle_tree.leaves@;
    assert forall|i: int| 0 <= i < size implies #[trigger] l[i] == pair_leaf(ve, vo, i) by { assert(l[i] =~= pair_leaf(ve, vo, i)); }
    assert(l =~= Seq::new(size as nat, |i: int| pair_leaf(ve, vo, i)));
}
//@ fn starks/prover.rs round_3_evaluate_polynomials_in_out_of_domain_element
ensures round3_ok(air, *domain, *round_1_result, *round_2_result, z@, ret),
//@ tail
proof {
    let ev = trace_ood_evaluations@; let offs = air.s_ctx().transition_offsets@; let t = round_1_result.trace_polys@; let g = domain.trace_primitive_root@;
    assert forall|k: int, i: int| 0 <= k < offs.len() && 0 <= i < t.len() implies (#[trigger] ev[k])@.len() == t.len() && congr(ev[k]@[i]@, #[trigger] peval(t[i]@, shifted(z@, g, offs, k))) by { assert(ev[k]@[i]@ == peval(t[i]@, z@ * ipow(g, offs[k] as nat))); }
}
