//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Round1": "Round1!", "BatchedMerkleTree": "BatchedMerkleTree!", "ConstraintEvaluator": "ConstraintEvaluator!"}, "methods": {"to_be_bytes": "vx_to_be"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/constraints/evaluator.rs ConstraintEvaluator
//@ item starks/constraints/evaluation_table.rs ConstraintEvaluationTable
//@ item starks/frame.rs Frame
//@ item starks/trace.rs TraceTable
//@ item starks/prover.rs Round1
//@ item starks/prover.rs Round2
//@ item starks/prover.rs Round3
//@ item starks/prover.rs ProvingError
//@ include table.rs
//@ include traces.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include comp.rs
//@ include eval.rs
//@ include rounds.rs
//@ use c08 TraceTable::new_from_cols
//@ use c08 TraceTable::rows
//@ use c08 TraceTable::is_empty
//@ use c08 TraceTable::compute_trace_polys
//@ use c11 compute_lde_trace_evaluations
//@ fn starks/prover.rs batch_commit
ensures tree_of(ret.0, Seq::new(vectors@.len(), |i: int| reps(vectors@[i]@))), ret.1@ == ret.0.root@,
//@ tail
proof { assert(Seq::new(vectors@.len(), |i: int| vectors@[i].leaf()) =~= Seq::new(vectors@.len(), |i: int| reps(vectors@[i]@))); }
//@ fn starks/prover.rs interpolate_and_commit
requires workable(*domain), trace.wf(), trace.nr() == domain.interpolation_domain_size, fits(trace.n_cols as int, *domain),
ensures polys_of(ret.0@, *trace), extended(ret.1@, ret.0@, domain.coset_offset@, size_of(*domain)),
    tree_of(ret.2, Seq::new(size_of(*domain) as nat, |i: int| evals_row(ret.1@, i))), ret.3@ == ret.2.root@, final(transcript).log() == old(transcript).log().push(Ev::App(ret.3@)),
//@ bodystart
proof { let n = trace.nr(); let b = domain.blowup_factor as int; lemma_pow2_mul(n, b); }
//@ let lde_trace_evaluations
proof { let (n, b) = (trace.nr(), domain.blowup_factor as int); assert(lde_trace_evaluations@[0]@.len() == n * b); assert(forall|c: int| 0 <= c < lde_trace_evaluations@.len() ==> on_domain((#[trigger] lde_trace_evaluations@[c])@, trace_polys@[c]@, domain.coset_offset@, n * b)); assert(trace.n_cols * (n * b) == lde_trace_evaluations@.len() * lde_trace_evaluations@[0]@.len()); }
//@ stmt append
proof {
    let e = lde_trace_evaluations@; let l = lde_trace_merkle_tree.leaves@;
    assert forall|i: int| 0 <= i < size_of(*domain) implies #[trigger] l[i] == evals_row(e, i) by { assert(l[i] =~= evals_row(e, i)); }
    assert(l =~= Seq::new(size_of(*domain) as nat, |i: int| evals_row(e, i)));
}
//@ fn starks/prover.rs round_1_randomized_air_with_preprocessing
requires workable(*domain), main_trace.wf(), main_trace.nr() == domain.interpolation_domain_size, fits(main_trace.n_cols + air.s_naux(), *domain), air.s_naux() >= 0,
ensures ret.is_ok(), round1_ok(air, *main_trace, *domain, old(transcript).log(), ret->Ok_0), final(transcript).log() == round1_log(air, old(transcript).log(), ret->Ok_0),
//@ bodystart
let ghost log0 = transcript.log(); let ghost m = main_trace.n_cols as int; let ghost k = air.s_naux(); let ghost size = size_of(*domain); let ghost h = domain.coset_offset@;
proof { let n = main_trace.nr(); let b = domain.blowup_factor as int; lemma_pow2_mul(n, b); assert(m * (n * b) <= (m + k) * (n * b) && k * (n * b) <= (m + k) * (n * b)) by (nonlinear_arith) requires m >= 0, k >= 0, n * b >= 0; }
//@ let rap_challenges
let ghost p0 = trace_polys@; let ghost e0 = evaluations@;
//@ let lde_trace
proof {
    let e = evaluations@; let p = trace_polys@; let aux = air.s_aux(*main_trace, rap_challenges);
    assert(p.subrange(0, m) =~= p0);
    assert forall|i: int, c: int| 0 <= i < size && 0 <= c < p.len() implies congr((#[trigger] lde_trace.cell(i, c))@, peval(p[c]@, h * ipow(omega(log2(size)), i as nat))) by {
        assert(lde_trace.cell(i, c) == e[c]@[i]); assert(on_domain(e[c]@, p[c]@, h, size));
    }
    let l = lde_trace_merkle_trees@[0].leaves@;
    assert forall|i: int| 0 <= i < size implies #[trigger] l[i] == row_part(lde_trace, i, 0, m) by { assert(l[i] == evals_row(e0, i)); assert(evals_row(e0, i) =~= row_part(lde_trace, i, 0, m)); }
    assert(l =~= Seq::new(size as nat, |i: int| row_part(lde_trace, i, 0, m)));
    if k > 0 {
        let l = lde_trace_merkle_trees@[1].leaves@;
        assert forall|i: int| 0 <= i < size implies #[trigger] l[i] == row_part(lde_trace, i, m, m + k) by { assert(l[i] =~= row_part(lde_trace, i, m, m + k)); }
        assert(l =~= Seq::new(size as nat, |i: int| row_part(lde_trace, i, m, m + k)));
    }
}
