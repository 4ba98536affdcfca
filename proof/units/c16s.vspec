//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include pow.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Round1": "Round1!", "FriMerkleTree": "FriMerkleTree!", "BatchedMerkleTree": "BatchedMerkleTree!", "Challenges": "Challenges!"}, "methods": {"to_be_bytes": "vx_to_be"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/frame.rs Frame
//@ item starks/trace.rs TraceTable
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/fri/fri_commitment.rs FriLayer
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/proof/stark.rs StarkProof
//@ item starks/verifier.rs Challenges
//@ item starks/prover.rs ProvingError
//@ item starks/prover.rs Round1
//@ item starks/prover.rs Round2
//@ item starks/prover.rs Round3
//@ item starks/prover.rs Round4
//@ include table.rs
//@ include traces.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include verif.rs
//@ include comp.rs
//@ include compv.rs
//@ include eval.rs
//@ include rounds.rs
//@ include layers.rs
//@ include deep.rs
//@ include prover.rs
//@ include fri4.rs
//@ include protov.rs
//@ include challenges.rs
//@ include whole.rs
//@ include honest.rs
//@ use c08 TraceTable::n_rows
//@ use c08 Frame::new
//@ use c11 Domain::new
//@ use c11 batch_sample_challenges
//@ use c11 sample_z_ood
//@ use c16p round_1_randomized_air_with_preprocessing
//@ use c16q round_2_compute_composition_polynomial
//@ use c16q round_3_evaluate_polynomials_in_out_of_domain_element
//@ use c16r round_4_compute_and_run_fri_on_the_deep_composition_polynomial
//@ fn starks/prover.rs round_0_transcript_initialization {"rename": {"DefaultTranscript": "VxTranscript", "TestTranscript": "VxTranscript"}}
ensures ret.log() == Seq::<Ev>::empty(),
//@ fn starks/prover.rs prove {"params": [null, "pub_inputs: &PubInput", null], "byval": ["boundary_coeffs_betas", "transition_coeffs_betas"], "types": {"vo_0": "Vec<(FE, FE)>", "vo_1": "Vec<(FE, FE)>", "vo_4": "Vec<FE>"}}
requires main_trace.wf(), can_prove(main_trace.nr(), main_trace.n_cols as int, *pub_inputs, *proof_options),
ensures ret.is_ok(), exists|h: Honest| #[trigger] honest(&VxAir::s_new(main_trace.nr(), *pub_inputs, *proof_options), *main_trace, ret->Ok_0, h),
//@ bodystart
let ghost n = main_trace.nr(); let ghost b = proof_options.blowup_factor as int; let ghost the_air = VxAir::s_new(main_trace.nr(), *pub_inputs, *proof_options); let ghost e = Seq::<Ev>::empty();
proof { axiom_new_options(n, *pub_inputs, *proof_options); lemma_pow2_mul(n, b); lemma_tz_log2(n * b); lemma_log2_nonneg(n / 2); lemma_log2_nonneg(b); assert(ipow(2, 60) == 0x1000_0000_0000_0000) by (compute); lemma_log2_le(n * b, 60); lemma_log2_bound(n * b); }
//@ let domain
proof { assert(provable(&air, domain)); }
//@ let round_1_result
let ghost lc = transcript.log(); let ghost nb = air.s_boundary(round_1_result.rap_challenges).constraints@.len() as int; let ghost nt = n_transition(&air);
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == nb, vo_0@.len() == vi_0, forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0@[i] == (boundary_coeffs_alphas@[i], boundary_coeffs_betas@[i]),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == nt, vo_1@.len() == vi_1, forall|i: int| 0 <= i < vi_1 ==> #[trigger] vo_1@[i] == (transition_coeffs_alphas@[i], transition_coeffs_betas@[i]),
decreases vn_1 - vi_1
//@ let transition_coeffs
let ghost lb = samples(lc, nb); let ghost lta = samples(lb, nb); let ghost ltb = samples(lta, nt);
proof { assert(pairs_drawn(boundary_coeffs@, lc, lb, nb)); assert(pairs_drawn(transition_coeffs@, lta, ltb, nt)); }
//@ let round_2_result
let ghost lz = samples(ltb, nt).push(Ev::App(round_2_result.composition_poly_root@));
proof { lemma_committed(&air, *main_trace, domain, e, round_1_result, boundary_coeffs@, transition_coeffs@, round_2_result); }
//@ let round_4_result
let ghost w = choose|w: R4| #[trigger] round4_ok(&air, domain, round_1_result, round_2_result, round_3_result, z@, lg, round_4_result, w);
let ghost h = Honest { d: domain, r1: round_1_result, r2: round_2_result, r3: round_3_result, r4: round_4_result, w, bc: boundary_coeffs@, tc: transition_coeffs@, z: z@ };
//@ let z
let ghost kz = z_draw(lz, domain);
proof { let k = choose|k: int| #[trigger] first_outside(lz, k, domain.lde_roots_of_unity_coset@, domain.trace_roots_of_unity@) && congr(z@, field_of(digest(samples(lz, k)))) && transcript.log() == samples(lz, k + 1); lemma_z_draw(lz, domain, k); }
//@ let round_3_result
let ghost ev = round_3_result.trace_ood_evaluations@; let ghost l2 = samples(lz, kz + 1).push(Ev::App(fe_bytes(round_3_result.composition_poly_even_ood_evaluation))).push(Ev::App(fe_bytes(round_3_result.composition_poly_odd_ood_evaluation)));
let ghost lg = sent(l2, flat(ev, ev.len() as int));
//@ before 2
proof { assert(l2 == transcript.log()); }
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == ev.len(), transcript.log() == sent(l2, flat(ev, vi_2 as int)),
decreases vn_2 - vi_2
//@ loopend 2
proof { assert(row@.subrange(0, row@.len() as int) =~= row@); }
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == row@.len(), row@ == ev[vj_2 as int]@, transcript.log() == sent(l2, flat(ev, vj_2 as int) + row@.subrange(0, vi_3 as int)),
decreases vn_3 - vi_3
//@ before 3
proof { assert(flat(ev, vj_2 as int) + row@.subrange(0, 0) =~= flat(ev, vj_2 as int)); }
//@ loopend 3
proof { let a = flat(ev, vj_2 as int); assert(a + row@.subrange(0, vj_3 + 1) =~= (a + row@.subrange(0, vj_3 as int)).push(row@[vj_3 as int])); lemma_sent(l2, a + row@.subrange(0, vj_3 as int), row@[vj_3 as int]); }
//@ after 2
proof { assert(transcript.log() == lg); let d = domain; lemma_lens(&air, *main_trace, d, e, round_1_result, boundary_coeffs@, transition_coeffs@, round_2_result, size_of(d)); }
//@ loop 4
invariant vi_4 <= vn_4, vn_4 == ev.len(), vo_4@ == flat(ev, vi_4 as int),
decreases vn_4 - vi_4
//@ loop 5
invariant vi_5 <= vn_5, vn_5 == vsrc_5_0@.len(), vsrc_5_0@ == ev[vj_4 as int]@, vo_4@ == flat(ev, vj_4 as int) + vsrc_5_0@.subrange(0, vi_5 as int),
decreases vn_5 - vi_5
//@ tail
proof { let p = vx_tail->Ok_0; assert(assembled(&the_air, p, h)); lemma_honest(&the_air, *main_trace, p, h, lc, lz, lg); }
