//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ include pow.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Challenges": "Challenges!"}, "methods": {"to_be_bytes": "vx_to_be", "verify": "vx_verify"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/frame.rs Frame
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/proof/stark.rs StarkProof
//@ item starks/verifier.rs Challenges
//@ include cell.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include verif.rs
//@ include comp.rs
//@ include compv.rs
//@ include protov.rs
//@ include challenges.rs
//@ include whole.rs
//@ use c08 Frame::num_rows
//@ use c08 Frame::num_columns
//@ use c08 Frame::has_shape
//@ use c08 Frame::get_row
//@ use c11 Domain::new
//@ use c14 trace_length_is_supported
//@ use c14 proof_has_expected_shape
//@ use c16v step_1_replay_rounds_and_recover_challenges
//@ use c10v step_2_verify_claimed_composition_polynomial
//@ use c14 step_3_verify_fri
//@ use c14 step_4_verify_deep_composition_polynomial
//@ fn starks/verifier.rs step_1_transcript_initialization {"rename": {"DefaultTranscript": "VxTranscript", "TestTranscript": "VxTranscript"}}
ensures ret.log() == Seq::<Ev>::empty(),
//@ fn starks/verifier.rs verify {"params": [null, "pub_input: &PubInput", null]}
requires !congr(proof_options.coset_offset as int, 0), proof.trace_length * proof_options.blowup_factor <= 0x1000_0000_0000_0000, squares_outside(&VxAir::s_new(proof.trace_length as int, *pub_input, *proof_options), *proof),
ensures verify_says(proof.trace_length as int, *pub_input, *proof_options, *proof, ret),
//@ bodystart
let ghost n = proof.trace_length as int; let ghost b = proof_options.blowup_factor as int; let ghost the_air = VxAir::s_new(proof.trace_length as int, *pub_input, *proof_options);
proof { axiom_new_options(n, *pub_input, *proof_options); }
//@ let air
proof {
    lemma_pow2_quotient(n, b); lemma_pow2_mul(n, b); lemma_tz_log2(n); lemma_tz_log2(n * b); lemma_tz_log2(b); assert(ipow(2, 60) == 0x1000_0000_0000_0000) by (compute);
    lemma_log2_le(n * b, 60); lemma_log2_nonneg(b); lemma_log2_nonneg(n / 2); assert(log2(n) == 1 + log2(n / 2)); lemma_log2_bound(n * b);
}
//@ let challenges
proof {
    lemma_coset_nonzero(&air, domain); assert(z2_outside(domain, challenges));
    assert forall|s: int| 0 <= s < challenges.iotas@.len() implies deep_defined(&air, domain, challenges, #[trigger] challenges.iotas@[s] as int) by { lemma_deep_defined(&air, domain, challenges, challenges.iotas@[s] as int); }
}
