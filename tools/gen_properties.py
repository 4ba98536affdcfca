#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that ids stay in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
C = "src/cairo/"; S = "src/starks/"

prop("C01", "Cairo instruction words decode to exactly the fields they encode",
 "Decoding an instruction word yields exactly its three biased 16-bit offsets and its flag fields (dst register, op0 register, op1 source, result logic, pc update, ap update, opcode), and the trace representation of those fields gives back the same 15 flag bits and the same biased offsets. A word below 2^63 one of whose flag fields holds a value the Cairo encoding does not define for that field is rejected with an error, never decoded to something else and never a panic. (Combinations of defined fields that the machine leaves undefined are refused when the step is recorded.)",
 ["inputs"], "every instruction word below 2^63 (as a field element)",
 "The tests decode about fifty hand-written words; the claim is about all 2^63 flag/offset combinations, including the undefined ones.",
 [C+"decode/instruction_flags.rs", C+"decode/instruction_offsets.rs"],
 [("flag decoding", C+"decode/instruction_flags.rs: CairoInstructionFlags and the per-field TryFrom impls, to_trace_representation"),
  ("offset decoding", C+"decode/instruction_offsets.rs: InstructionOffsets")])

prop("C02", "Binary trace and memory files import exactly, or are refused",
 "Importing a register-trace file gives one register state per 24-byte record (ap, fp, pc as little-endian 64-bit integers, in file order), and importing a memory file gives exactly the address-to-value map of its 40-byte records (8-byte address, 32-byte value reduced modulo the field prime, little endian; the last record of an address wins). A file whose length is not a whole number of records is refused with an error, and no input makes the import panic.",
 ["inputs"], "every byte string, of any length, handed to the two importers",
 "The tests import one three-step program and one wrong length per format.",
 [C+"register_states.rs", C+"cairo_mem.rs", C+"errors.rs"],
 [("trace import", C+"register_states.rs: from_bytes_le / from_file"), ("memory import", C+"cairo_mem.rs: from_bytes_le / from_file")])

prop("C03", "Each execution-trace row records the step the Cairo machine performed",
 "For every step of a valid Cairo execution, the main trace row for that step holds the step's flag bits, pc, ap, fp, the three operand addresses and values, the instruction word, the biased offsets, the result, and the auxiliary products, exactly as the Cairo machine semantics define them. Rows follow execution order, and an instruction combination the machine leaves undefined is refused rather than recorded with made-up values.",
 ["programs", "inputs"], "every register history and memory produced by a valid Cairo run (all operand sources, result logics, pc/ap/fp updates and opcodes)",
 "Two concrete programs are compared with recorded tables; most instruction variants and operand combinations never occur in them.",
 [C+"execution_trace.rs", C+"register_states.rs", C+"cairo_mem.rs"],
 [("operand computation", C+"execution_trace.rs: compute_dst, compute_op0, compute_op1, compute_res, update_values"),
  ("row assembly", C+"execution_trace.rs: build_cairo_execution_trace")],
 state=[("main trace columns 0..33", "16 flags, res, ap, fp, pc, dst/op0/op1 address, instruction, dst/op0/op1 value, three offsets, t0, t1, mul, selector")])

prop("C04", "The Cairo AIR's transition constraints are exactly the Cairo machine's equations",
 "For any pair of consecutive trace rows, the transition constraints evaluate to the polynomials that define a Cairo step: flag booleanity and the zero flag, instruction composition, operand address computation, the t0/t1 products, next pc/ap/fp, result selection, call and assert-equal conditions, and the memory, range-check and builtin relations. The step equations (instruction composition through assert-equal) are multiplied by the row selector, and only the equations that read the next row are exempt on the last one. The constraints vanish on the pair if and only if those equations hold, each constraint keeps its own position, and the constraints by themselves rule out a trace whose selector switches the step equations off where a step is claimed.",
 ["inputs"], "every pair of consecutive rows, every verifier challenge, with and without the range-check builtin",
 "Tests evaluate the constraints on one honest three-row program only, where they must all be zero; nothing tests that a wrong row makes the right one non-zero.",
 [C+"air.rs"],
 [("instruction constraints", C+"air.rs: compute_instr_constraints"), ("operand constraints", C+"air.rs: compute_operand_constraints"),
  ("register constraints", C+"air.rs: compute_register_constraints"), ("opcode constraints", C+"air.rs: compute_opcode_constraints"),
  ("result selector", C+"air.rs: enforce_selector"), ("memory / permutation / range check", C+"air.rs: memory_is_increasing, permutation_argument, permutation_argument_range_check, evaluate_range_check_builtin_constraint")])

prop("C05", "An honest Cairo execution satisfies every constraint of the Cairo AIR",
 "For every valid Cairo execution and every choice of verifier challenges, the main and auxiliary trace that the prover builds satisfies all boundary constraints and, on every row where the constraint applies, all transition constraints. This holds including padding rows, memory-hole rows, range-check padding and the public-memory section.",
 ["programs", "inputs"], "every valid Cairo run with its public memory, every challenge triple, with and without the range-check builtin",
 "One three-step program is checked in a debug validator with fixed challenges.",
 [C+"execution_trace.rs", C+"air.rs", S+"debug.rs"],
 [("main trace", C+"execution_trace.rs: build_main_trace"), ("auxiliary trace", C+"air.rs: build_auxiliary_trace"),
  ("constraints", C+"air.rs: compute_transition, boundary_constraints, transition_exemptions")])

prop("C06", "The memory argument's columns describe one read-only contiguous memory",
 "The memory columns the prover builds are the accesses of the run, padded so that every address between the lowest and the highest accessed one (public memory included) occurs, and each sorted copy is a rearrangement of those accesses with one placeholder replaced by each public-memory cell, ordered by address. The running product accumulates exactly the ratio of the two lists under the verifier's challenges, and its last value is the one the verifier computes from the public memory alone.",
 ["programs", "inputs"], "every list of accesses (with holes, repeats and any order), every public memory, every challenge pair",
 "Unit tests cover a handful of short address lists; the relation quantifies over all access lists, hole patterns and challenges.",
 [C+"execution_trace.rs", C+"air.rs"],
 [("holes", C+"execution_trace.rs: get_memory_holes, fill_memory_holes"), ("public memory rows", C+"air.rs: add_pub_memory_in_public_input_section"),
  ("sort", C+"air.rs: sort_columns_by_memory_address"), ("running product", C+"air.rs: generate_memory_permutation_argument_column"),
  ("public product", C+"air.rs: boundary_constraints")])

prop("C07", "The range-check argument covers exactly the offsets in use",
 "The range-check columns contain the three biased offsets of every step and, for every value between the smallest and the largest of them that no step uses, one padding entry; the published minimum and maximum are those of the offsets, and the sorted column is a rearrangement of the unsorted ones that climbs by at most one per row. Every value of the range-check builtin segment is split into eight 16-bit limbs that recompose to it, and the constraints admit no value of 2^128 or more there.",
 ["programs", "inputs"], "every set of offsets, every builtin segment content, every challenge",
 "Unit tests use three short columns and two builtin values.",
 [C+"execution_trace.rs", C+"air.rs"],
 [("padding", C+"execution_trace.rs: get_rc_holes, fill_rc_holes"), ("builtin limbs", C+"execution_trace.rs: decompose_rc_values_into_trace_columns, add_rc_builtin_columns"),
  ("bounds", C+"execution_trace.rs: set_rc_permutation_column"), ("running product", C+"air.rs: generate_range_check_permutation_argument_column")])

prop("C08", "Trace tables and evaluation frames address the cell they name",
 "A trace table built from rows or columns returns the same cell for the same row and column through every accessor, concatenation and sub-tabling keep every retained cell, and its column polynomials take the column's values on the trace domain. An evaluation frame for row i holds exactly the rows at the AIR's offsets from i (cyclically), at the blown-up stride on the extended domain, and out of domain it holds each column polynomial at the matching power of the generator times the sampled point.",
 ["inputs"], "every table shape and content, every row index, step size, offset list and evaluation point",
 "Tests use tables of at most four rows and two or three columns and never compare accessors with each other.",
 [S+"trace.rs", S+"frame.rs"],
 [("table", S+"trace.rs: TraceTable"), ("frame", S+"frame.rs: Frame::read_from_trace, get_row, get_trace_evaluations")])

prop("C09", "Boundary constraints pin exactly the declared cells",
 "The polynomial interpolating a column's boundary constraints takes the declared value at every declared step, and the boundary zerofier of that column vanishes on exactly the declared steps of the trace domain. For a Cairo program the declared cells fix the initial pc, ap and fp, the final pc and ap, the range-check bounds, and the final memory and range-check products, at the rows where the execution starts and ends, so that a trace that disagrees with any of those public inputs, a public memory value included, does not satisfy them.",
 ["inputs", "configurations"], "every set of boundary constraints (any columns, steps, values) and every Cairo public input",
 "Tests check three hand-picked constraint sets on an eight-row domain.",
 [S+"constraints/boundary.rs", C+"air.rs"],
 [("constraint set", S+"constraints/boundary.rs: BoundaryConstraints"), ("Cairo boundary", C+"air.rs: boundary_constraints")])

prop("C10", "Prover and verifier agree on the composed constraint polynomial",
 "Each transition constraint is divided by the polynomial vanishing on exactly the rows where it applies (all rows but the exempted last ones), each boundary constraint by the one vanishing on its declared steps, each quotient is raised to the common composition degree, and the sum weighted by the verifier's challenges is the composition polynomial. The prover's value of it at any point, obtained from the table of evaluations, equals the value the verifier computes from an out-of-domain frame alone; it is a polynomial of the declared degree when the trace satisfies the constraints.",
 ["inputs", "configurations"], "every trace (satisfying or not), every AIR with consistent exemptions and degrees (composition bound between one and two trace lengths, constraint degrees within it), every coefficient and evaluation point outside the domains, every power-of-two blowup from 2 and every coset offset whose coset avoids the trace domain",
 "Whole-proof tests exercise five fixed AIRs; they cannot distinguish a wrong-but-consistent divisor or degree adjustment.",
 [S+"constraints/evaluator.rs", S+"constraints/evaluation_table.rs", S+"traits.rs", S+"verifier.rs"],
 [("prover side", S+"constraints/evaluator.rs: ConstraintEvaluator::evaluate"), ("divisors", S+"traits.rs: transition_exemptions, transition_divisors"),
  ("verifier side", S+"verifier.rs: step_2_verify_claimed_composition_polynomial")])

prop("C11", "Evaluation domains and sampled challenges are the ones the protocol fixes",
 "For a trace of n rows, blowup b and coset offset h, the trace domain is the n-th roots of unity and the extended domain is h times the (n*b)-th roots, both in natural order, and column polynomials are evaluated on it in that order. Field challenges are the transcript bytes with the excess top bits cleared, read big-endian and reduced; query indices are transcript integers modulo the extended domain size; an out-of-domain point never lies in either domain.",
 ["inputs", "configurations"], "every trace length, blowup and offset, and every 32-byte transcript output",
 "Tests cover one domain size and a few hand-written random strings.",
 [S+"domain.rs", S+"transcript.rs", S+"prover.rs"],
 [("domains", S+"domain.rs: Domain::new"), ("randomness to field", S+"transcript.rs: randomness_to_field, transcript_to_field, transcript_to_usize, sample_z_ood, batch_sample_challenges"),
  ("LDE", S+"prover.rs: evaluate_polynomial_on_lde_domain")])

prop("C12", "FRI folding and layer commitments follow the committed polynomial",
 "Each FRI layer's polynomial is the even part plus the challenge times the odd part of the previous one, its committed evaluations are that polynomial on the squared coset in natural order, and the final layer is the constant the polynomial folds to. The number of layers, the order in which roots enter the transcript and challenges leave it, and the final value sent are those the verifier replays.",
 ["inputs", "histories"], "every polynomial, coset offset, domain size and number of layers, every challenge sequence",
 "Tests fold one fixed polynomial three times with fixed challenges.",
 [S+"fri/mod.rs", S+"fri/fri_functions.rs", S+"fri/fri_commitment.rs"],
 [("fold", S+"fri/fri_functions.rs: fold_polynomial"), ("layer", S+"fri/fri_commitment.rs: FriLayer::new"), ("commit phase", S+"fri/mod.rs: fri_commit_phase"), ("query phase", S+"fri/mod.rs: fri_query_phase")])

prop("C13", "The DEEP combination and its openings are consistent between both sides",
 "The DEEP composition polynomial is the challenge-weighted sum of every (column minus its claimed out-of-domain value) over (x minus the point it was claimed at), together with the two halves of the composition polynomial at the squared point, and it is a polynomial exactly when all claimed values are true. The value the verifier reconstructs at a query position from opened rows equals the prover's polynomial at that position of the extended domain, and the opening for a query index authenticates exactly that row of every committed table.",
 ["inputs", "configurations"], "every set of column polynomials, claimed values, coefficients, query indices and row offsets",
 "Only end-to-end proofs over five AIRs touch it; a wrong coefficient order or a dropped term that both sides share would go unnoticed.",
 [S+"prover.rs", S+"verifier.rs"],
 [("prover", S+"prover.rs: compute_deep_composition_poly, open_deep_composition_poly"), ("verifier", S+"verifier.rs: reconstruct_deep_composition_poly_evaluation")])

prop("C14", "A proof is accepted only if every check on it passes",
 "The verifier accepts only if the claimed composition value matches the out-of-domain frame, every FRI query folds consistently from the reconstructed DEEP value to the sent final value with all its layer paths valid, every opened trace and composition row is authenticated by its commitment at the queried position, and the grinding nonce meets the required difficulty. Altering any committed root, claimed evaluation, opened value, authentication path, nonce, final value, public input the constraints refer to, or security parameter of an accepted proof makes it rejected (demanding less grinding than was done excepted).",
 ["inputs", "fault_sequences"], "every accepted proof of a trace whose rows are not all equal, and every single alteration of one of its components, of the registers, range-check bounds, step number or public memory it claims, or of its options",
 "Five negative tests alter a trace or an option; none alters the proof itself, so a verifier that skips a check passes them all.",
 [S+"verifier.rs", S+"grinding.rs"],
 [("composition check", S+"verifier.rs: step_2_verify_claimed_composition_polynomial"), ("FRI check", S+"verifier.rs: step_3_verify_fri, verify_query_and_sym_openings"),
  ("openings", S+"verifier.rs: step_4_verify_deep_composition_polynomial"), ("verdict", S+"verifier.rs: verify")])

prop("C15", "Verification of malformed proofs ends in rejection, never in a crash",
 "Given any proof value, however its parts are missing, truncated, duplicated or resized, verification terminates and returns a verdict without panicking (in memory proportional to the claimed trace length when the proof is consistent with it). A proof with fewer queries, layers, openings, path entries, roots or out-of-domain values than the options and AIR require is rejected, never accepted on the part that is present.",
 ["inputs", "fault_sequences"], "every proof obtained by dropping, adding, truncating or swapping components of any proof, and every claimed trace length",
 "No test feeds a structurally wrong proof to the verifier.",
 [S+"verifier.rs"],
 [("shape checks", S+"verifier.rs: verify"), ("challenge replay", S+"verifier.rs: step_1_replay_rounds_and_recover_challenges"), ("queries", S+"verifier.rs: step_3_verify_fri, step_4_verify_deep_composition_polynomial")])

prop("C16", "Honest proofs verify, and both sides draw the same challenges",
 "For every AIR, every trace satisfying its constraints and every supported option set, the proof the prover makes is accepted by the verifier. Prover and verifier put the same messages into the transcript in the same order, and every challenge depends on every message sent before it (trace roots, composition roots, out-of-domain values, FRI roots, final value, nonce).",
 ["inputs", "configurations", "histories"], "every satisfying trace, power-of-two blowup from 2, query count, grinding factor, coset offset whose coset avoids the trace domain, and number of interaction rounds, for every AIR with consistent exemptions, offsets and degrees",
 "Tests prove eight fixed instances with one or two option sets.",
 [S+"prover.rs", S+"verifier.rs", S+"transcript.rs"],
 [("prover rounds", S+"prover.rs: round_1 .. round_4, prove"), ("verifier rounds", S+"verifier.rs: step_1_replay_rounds_and_recover_challenges"), ("transcript", S+"transcript.rs")])

prop("C17", "Serialization round-trips for proofs and public inputs",
 "Serializing and then deserializing a proof, a FRI decommitment, a DEEP opening, an evaluation frame or a set of Cairo public inputs gives back an equal value. Nothing in the value is lost, reordered or merged, including empty lists, absent optional fields and every memory segment.",
 ["inputs"], "every value of each serializable type, including empty and single-element lists",
 "Property tests use fixed list shapes with uniformly sampled contents (small non-empty vectors); public inputs are tested on one shape.",
 [S+"proof/stark.rs", S+"fri/fri_decommit.rs", S+"frame.rs", S+"utils.rs", C+"air.rs"],
 [("proof", S+"proof/stark.rs: Serializable/Deserializable for StarkProof, DeepPolynomialOpenings"), ("decommitment", S+"fri/fri_decommit.rs: FriDecommitment"),
  ("frame", S+"frame.rs: Frame"), ("merkle path", S+"utils.rs: serialize_proof, deserialize_proof"), ("public inputs", C+"air.rs: PublicInputs")])

prop("C18", "Deserializing arbitrary bytes returns a value or an error, never a crash",
 "For every byte string, deserializing a proof, a FRI decommitment, a DEEP opening, an evaluation frame, an authentication path or Cairo public inputs terminates with either a value or an error. No length or count field taken from the bytes can make it index out of range, overflow, or allocate without bound.",
 ["inputs"], "every byte string of every length, including hostile length fields",
 "A property test mutates a few bytes of valid encodings; length fields near the integer limits and truncations inside each field are not reached.",
 [S+"proof/stark.rs", S+"fri/fri_decommit.rs", S+"frame.rs", S+"utils.rs", C+"air.rs"],
 [("proof", S+"proof/stark.rs: deserialize"), ("decommitment", S+"fri/fri_decommit.rs: deserialize"), ("frame", S+"frame.rs: deserialize"),
  ("merkle path", S+"utils.rs: deserialize_proof"), ("public inputs", C+"air.rs: PublicInputs::deserialize")])

prop("C19", "Grinding finds the least valid nonce and verification agrees with it",
 "For a transcript state and difficulty, the prover's nonce search returns the smallest nonce whose hash meets the difficulty, or nothing if none exists. The verifier's difficulty measure of a (state, nonce) pair is the same function of the same hash, so it accepts a nonce if and only if the prover could have stopped at it.",
 ["inputs"], "every 32-byte state, every nonce and every difficulty from 0 to 64",
 "One state/nonce pair is tested for its difficulty.",
 [S+"grinding.rs", S+"prover.rs", S+"verifier.rs"],
 [("hash and measure", S+"grinding.rs: hash_transcript_with_int_and_get_leading_zeros"), ("search", S+"grinding.rs: generate_nonce_with_grinding"), ("check", S+"verifier.rs: step_1_replay_rounds_and_recover_challenges")])

prop("C20", "Security options deliver the security level they are named after",
 "Options built for a named security level have an estimate above that many bits: the conjecturable estimate is the number of queries times the log2 of the blowup plus the grinding bits less one, the provable one is the grinding bits plus half the query term, and the field must exceed the level by forty bits. The checking constructor accepts a parameter set exactly when its blowup is a power of two and its estimate exceeds the requested level (or, for the provable one, the provable estimate), and rejects every weaker or ill-formed set with an error instead of a panic.",
 ["inputs", "configurations"], "every blowup, query count, grinding factor and requested level",
 "Tests check each named level for one blowup and three rejections.",
 [S+"proof/options.rs", S+"proof/errors.rs"],
 [("named levels", S+"proof/options.rs: new_secure"), ("checked constructors", S+"proof/options.rs: new_with_checked_security, new_with_checked_provable_security")])

prop("C21", "Public inputs state the execution they are derived from",
 "Public inputs derived from a run carry the run's first pc, ap and fp, its last pc and ap, its number of steps, the program's cells and the cells of the declared output segment as public memory with their true values, and the segment ranges given. Running a program file and building its trace yields exactly that program's execution: every step, every memory cell, and the range-check segment the run used.",
 ["programs", "inputs"], "every run, program size and segment map",
 "No test reads the public inputs back; only whole proofs over a few programs use them.",
 [C+"air.rs", C+"runner/run.rs", C+"runner/vec_writer.rs"],
 [("derivation", C+"air.rs: PublicInputs::from_regs_and_mem"), ("runner", C+"runner/run.rs: run_program, generate_prover_args, create_memory_segment_map"), ("encoding", C+"runner/vec_writer.rs: VecWriter")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
