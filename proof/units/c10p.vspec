//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include pow.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Round1": "Round1!", "FriMerkleTree": "FriMerkleTree!", "BatchedMerkleTree": "BatchedMerkleTree!", "Challenges": "Challenges!"}, "methods": {"to_be_bytes": "vx_to_be"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/frame.rs Frame
//@ item starks/trace.rs TraceTable
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/fri/fri_commitment.rs FriLayer
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/proof/stark.rs StarkProof
//@ item starks/verifier.rs Challenges
//@ item starks/prover.rs ProvingError
//@ item starks/prover.rs Round1
//@ item starks/prover.rs Round2
//@ item starks/prover.rs Round3
//@ item starks/prover.rs Round4
//@ include table.rs
//@ include traces.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include verif.rs
//@ include comp.rs
//@ include compv.rs
//@ include eval.rs
//@ include rounds.rs
//@ include layers.rs
//@ include deep.rs
//@ include prover.rs
//@ include fri4.rs
//@ include protov.rs
//@ include challenges.rs
//@ include whole.rs
//@ include honest.rs
//@ include ident.rs
//@ include foldt.rs
//@ include hsame.rs
//@ include hcomp.rs
//@ include hdeep.rs
//@ include hair.rs
//@ raw
/// Columns that satisfy every constraint of the AIR have a composition polynomial of at most l coefficients, whatever the challenges: off the trace domain it agrees with the formula both sides compute.
pub proof fn theorem_composition_exists(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>, l: int) -> (q: Seq<int>)
    requires lawful(air), length_law(air), satisfies(air, rap, t), within(air, l), t.len() == air.s_ctx().trace_columns, columns_within(t, air.s_trace_length()), air.s_ctx().transition_offsets@[0] == 0
    ensures composes(air, rap, t, bc, tc, q), q.len() <= l
{ theorem_composes(air, rap, t, bc, tc, l) }
