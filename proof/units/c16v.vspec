//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ include pow.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Challenges": "Challenges!"}, "methods": {"to_be_bytes": "vx_to_be", "verify": "vx_verify"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/frame.rs Frame
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/proof/stark.rs StarkProof
//@ item starks/verifier.rs Challenges
//@ include cell.rs
//@ include air.rs
//@ include airx.rs
//@ include protov.rs
//@ include challenges.rs
//@ use c08 Frame::num_rows
//@ use c08 Frame::num_columns
//@ use c08 Frame::has_shape
//@ use c08 Frame::get_row
//@ use c11 transcript_to_field
//@ use c11 transcript_to_usize
//@ use c11 batch_sample_challenges
//@ use c11 sample_z_ood
//@ use c19 hash_transcript_with_int_and_get_leading_zeros
//@ fn starks/verifier.rs step_1_replay_rounds_and_recover_challenges {"byval": ["boundary_coeffs_betas", "transition_coeffs_betas"], "types": {"vo_0": "Vec<(FE, FE)>", "vo_1": "Vec<(FE, FE)>", "vo_4": "Vec<Vec<FE>>", "vo_5": "Vec<FE>", "vo_6": "Vec<FE>", "vo_7": "Vec<usize>"}}
requires
    1 <= proof.lde_trace_merkle_roots@.len() <= 2, proof.fri_layers_merkle_roots@.len() >= 1, domain.lde_root_order <= 60,
    proof.trace_ood_frame_evaluations.row_width == air.s_ctx().trace_columns, air.s_ctx().trace_columns >= 1,
    proof.trace_ood_frame_evaluations.data@.len() == air.s_ctx().transition_offsets@.len() * air.s_ctx().trace_columns,
ensures challenges_of(air, old(transcript).log(), *proof, *domain, ret),
//@ bodystart
let ghost log0 = transcript.log(); let ghost cols = air.s_ctx().trace_columns as int; let ghost offs = air.s_ctx().transition_offsets@.len() as int; let ghost data = proof.trace_ood_frame_evaluations.data@;
proof { lemma_ipow2_mono(domain.lde_root_order as nat, 60); assert(ipow(2, 60) == 0x1000_0000_0000_0000) by (compute); assert(ipow(2, domain.lde_root_order as nat) > 0) by { lemma_shl(domain.lde_root_order); } vstd::arithmetic::div_mod::lemma_div_multiples_vanish(offs, cols); assert(offs * cols == cols * offs) by (nonlinear_arith); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == n_boundary(air, log0, *proof), vo_0@.len() == vi_0, forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0@[i] == (boundary_coeffs_alphas@[i], boundary_coeffs_betas@[i]),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == n_transition(air), vo_1@.len() == vi_1, forall|i: int| 0 <= i < vi_1 ==> #[trigger] vo_1@[i] == (transition_coeffs_alphas@[i], transition_coeffs_betas@[i]),
decreases vn_1 - vi_1
//@ let z
proof { let k = choose|k: int| #[trigger] first_outside(g_z(air, log0, *proof), k, domain.lde_roots_of_unity_coset@, domain.trace_roots_of_unity@)
        && congr(z@, field_of(digest(samples(g_z(air, log0, *proof), k)))) && transcript.log() == samples(g_z(air, log0, *proof), k + 1); lemma_z_draw(g_z(air, log0, *proof), *domain, k); }
//@ before 2
let ghost l2 = transcript.log();
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == offs, transcript.log() == values_log(l2, data, vi_2 * cols),
decreases vn_2 - vi_2
//@ loopstart 2
proof { assert((vi_2 + 1) * cols <= offs * cols && (vi_2 + 1) * cols == vi_2 * cols + cols && vi_2 * cols >= 0) by (nonlinear_arith) requires 0 <= vi_2 < offs, cols >= 1; }
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == cols, transcript.log() == values_log(l2, data, vj_2 * cols + vi_3),
decreases vn_3 - vi_3
//@ before 4
let ghost l4 = transcript.log();
//@ loop 4
invariant vi_4 <= vn_4, vn_4 == cols, transcript.log() == samples(l4, vi_4 * offs), vo_4@.len() == vi_4,
    forall|i: int| 0 <= i < vi_4 ==> (#[trigger] vo_4@[i])@.len() == offs && forall|j: int| 0 <= j < offs ==> congr((#[trigger] vo_4@[i]@[j])@, drawn(l4, i * offs + j)),
decreases vn_4 - vi_4
//@ loopstart 4
proof { assert((vi_4 + 1) * offs == vi_4 * offs + offs && vi_4 * offs >= 0) by (nonlinear_arith) requires 0 <= vi_4, offs >= 0; }
//@ loop 5
invariant vi_5 <= vn_5, vn_5 == offs, transcript.log() == samples(l4, vj_4 * offs + vi_5), vo_5@.len() == vi_5,
    forall|j: int| 0 <= j < vi_5 ==> congr((#[trigger] vo_5@[j])@, drawn(l4, vj_4 * offs + j)),
decreases vn_5 - vi_5
//@ before 6
let ghost l6 = transcript.log(); let ghost roots = fri_roots(*proof);
//@ loop 6
invariant vi_6 <= vn_6, vn_6 == roots.len(), transcript.log() == (if vi_6 == 0 { l6 } else { commit_log(l6, roots, vi_6 as int).push(Ev::Smp) }), vo_6@.len() == vi_6,
    forall|k: int| 0 <= k < vi_6 ==> congr((#[trigger] vo_6@[k])@, zeta_of(l6, roots, k + 1)),
decreases vn_6 - vi_6
//@ loopstart 6
proof { assert(roots[vi_6 as int] == proof.fri_layers_merkle_roots@[vi_6 as int]@); }
//@ let iota_max
let ghost l7 = transcript.log();
//@ loop 7
invariant vi_7 <= vn_7, vn_7 == air.s_options().fri_number_of_queries, transcript.log() == samples(l7, vi_7 as int), vo_7@.len() == vi_7,
    forall|s: int| 0 <= s < vi_7 ==> #[trigger] vo_7@[s] == index_of(digest(samples(l7, s))) % (iota_max as int),
decreases vn_7 - vi_7
