//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include pow.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Round1": "Round1!", "FriMerkleTree": "FriMerkleTree!", "BatchedMerkleTree": "BatchedMerkleTree!"}, "methods": {"to_be_bytes": "vx_to_be"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/frame.rs Frame
//@ item starks/trace.rs TraceTable
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/fri/fri_commitment.rs FriLayer
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/prover.rs Round1
//@ item starks/prover.rs Round2
//@ item starks/prover.rs Round3
//@ item starks/prover.rs Round4
//@ include table.rs
//@ include traces.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include comp.rs
//@ include eval.rs
//@ include rounds.rs
//@ include layers.rs
//@ include deep.rs
//@ include prover.rs
//@ include fri4.rs
//@ use c11 transcript_to_field
//@ use c11 batch_sample_challenges
//@ use c13 compute_deep_composition_poly
//@ use c13 open_deep_composition_poly
//@ use c12 fri_commit_phase
//@ use c12 fri_query_phase
//@ use c19 generate_nonce_with_grinding
//@ fn starks/prover.rs round_4_compute_and_run_fri_on_the_deep_composition_polynomial
requires provable(air, *domain), committed(*round_1_result, *round_2_result, size_of(*domain)), round3_ok(air, *domain, *round_1_result, *round_2_result, z@, *round_3_result),
    round_1_result.trace_polys@.len() == air.s_ctx().trace_columns, lens_within(round_1_result.trace_polys@, round_2_result.composition_poly_even@, round_2_result.composition_poly_odd@, size_of(*domain)),
    nonces_exist(air.s_options().grinding_factor as int),
ensures exists|w: R4| #[trigger] round4_ok(air, *domain, *round_1_result, *round_2_result, *round_3_result, z@, old(transcript).log(), ret, w) && final(transcript).log() == samples(r4_query(air, old(transcript).log(), w.l, ret), w.iotas.len() as int),
//@ bodystart
let ghost log0 = transcript.log(); let ghost size = size_of(*domain); let ghost n = air.s_trace_length(); let ghost b = air.s_options().blowup_factor as int;
proof { lemma_pow2_mul(n, b); lemma_log2_nonneg(n); lemma_log2_nonneg(b); }
//@ let trace_poly_coeffients
proof { assert(samples(log0, 2) == samples(log0, 1).push(Ev::Smp)); assert(samples(log0, 1) == samples(log0, 0).push(Ev::Smp)); assert(samples(log0, 0) == log0); }
//@ let deep_composition_poly
let ghost p = deep_composition_poly@;
//@ let fri_layers
let ghost l = fri_layers@;
//@ let transcript_challenge
proof { assert(transcript_challenge@ == digest(r4_grind(air, log0, l, fri_last_value))); assert(solvable(transcript_challenge@, grinding_factor as int)); }
//@ let nonce
proof { assert forall|k: int| 0 <= k < l.len() implies layer_committed(#[trigger] fri_layers@[k]) by { assert(layers_ok(l, k, p, r4_fri(air, log0), air.s_options().coset_offset as int, size)); lemma_layers_committed(l, k, p, r4_fri(air, log0), air.s_options().coset_offset as int, size); } }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == l.len(), fri_layers@ == l, vo_0@.len() == vi_0, forall|k: int| 0 <= k < vi_0 ==> (#[trigger] vo_0@[k]) == l[k].merkle_tree.root,
decreases vn_0 - vi_0
//@ tail
proof {
    let gam = trace_poly_coeffients@; let w = R4 { p, l, iotas: iotas@, ge: composition_poly_coeffients@[0]@, go: composition_poly_coeffients@[1]@, gam };
    let r = vx_tail; let h = air.s_options().coset_offset as int; let lf = r4_fri(air, log0);
    assert(gammas_drawn(air, log0, w));
    assert(deep_is(p, round_1_result.trace_polys@, *round_2_result, *round_3_result, air.s_ctx().transition_offsets@, z@, domain.trace_primitive_root@, w.ge, w.go, gam));
    assert(deep_len(p, round_1_result.trace_polys@, *round_2_result));
    assert(l.len() == log2(n)) by { lemma_log2_bound(n / 2); }
    assert(ipow(2, l.len()) == n) by { lemma_log2_bound(n); }
    assert(fri_is(w, lf, h, size, n, r.fri_last_value));
    assert(hashes(r.fri_layers_merkle_roots@) =~= root_list(l));
    assert(round4_ok(air, *domain, *round_1_result, *round_2_result, *round_3_result, z@, log0, r, w));
}
