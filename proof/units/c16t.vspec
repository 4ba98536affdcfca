//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include pow.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "Round1": "Round1!", "FriMerkleTree": "FriMerkleTree!", "BatchedMerkleTree": "BatchedMerkleTree!", "Challenges": "Challenges!"}, "methods": {"to_be_bytes": "vx_to_be"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/frame.rs Frame
//@ item starks/trace.rs TraceTable
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/fri/fri_commitment.rs FriLayer
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/proof/stark.rs StarkProof
//@ item starks/verifier.rs Challenges
//@ item starks/prover.rs ProvingError
//@ item starks/prover.rs Round1
//@ item starks/prover.rs Round2
//@ item starks/prover.rs Round3
//@ item starks/prover.rs Round4
//@ include table.rs
//@ include traces.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include verif.rs
//@ include comp.rs
//@ include compv.rs
//@ include eval.rs
//@ include rounds.rs
//@ include layers.rs
//@ include deep.rs
//@ include prover.rs
//@ include fri4.rs
//@ include protov.rs
//@ include challenges.rs
//@ include whole.rs
//@ include honest.rs
//@ include foldt.rs
//@ include ident.rs
//@ include hquery.rs
//@ include hdeep.rs
//@ include hsame.rs
//@ include deepv.rs
//@ include hopen.rs
//@ include hcomp.rs
//@ include hwhole.rs
//@ include hair.rs
//@ include htrace.rs
//@ raw
/// What prove's contract (c16s) says of the proof and what verify's (c14v) says of its answer leave only one answer.
pub proof fn theorem_honest_verifies(n: int, pi: PubInput, o: ProofOptions, main: TraceTable, p: StarkProof, h: Honest, q: Seq<int>, ret: bool)
    requires ({ let air = VxAir::s_new(n, pi, o); honest(&air, main, p, h) && satisfied(&air, main, h, q) && air.s_trace_length() == n && squares_outside(&air, p) }), verify_says(n, pi, o, p, ret)
    ensures ret
{
    let air = VxAir::s_new(n, pi, o); axiom_new_options(n, pi, o); lemma_sizes(&air, h.d); lemma_tz_log2(n * o.blowup_factor); lemma_honest_shape(&air, main, p, h);
    let (d, c) = choose|d: Domain, c: Challenges| domain_of(d, &air) && #[trigger] challenges_of(&air, Seq::empty(), p, d, c) && ret == verdict(&air, p, d, c);
    lemma_honest_accepted(&air, main, p, h, d, c, q);
}
/// A proof that prove's contract describes, of a trace whose rows satisfy the AIR, is accepted by a verifier that verify's contract describes.
pub proof fn theorem_trace_verifies(n: int, pi: PubInput, o: ProofOptions, main: TraceTable, p: StarkProof, h: Honest, l: int, ret: bool)
    requires ({ let air = VxAir::s_new(n, pi, o); honest(&air, main, p, h) && trace_satisfies(&air, h.r1.rap_challenges, main) && air_law(&air, h.r1.rap_challenges, l) && l <= 2 * n + 1 && l <= n * o.blowup_factor && air.s_trace_length() == n && squares_outside(&air, p) }), verify_says(n, pi, o, p, ret)
    ensures ret
{
    let air = VxAir::s_new(n, pi, o); axiom_new_options(n, pi, o); let q = lemma_satisfied(&air, main, p, h, l); theorem_honest_verifies(n, pi, o, main, p, h, q, ret);
}
