#!/usr/bin/env python3
"""Writes tools/levels.json: per property, the deciding method, its level and what the level means here."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification (Verus) of functions extracted mechanically from /repo/src on every run; failing inputs replayed on the real crate"
X = "contract-based deductive verification (Verus) of the functions in reach, bounded replay of the real crate for the rest"
D = "Every obligation is discharged for all inputs and iterations, over the trusted contracts listed in the evidence file (field, polynomial, hash and std interfaces). "
L = {
 "C01": (T, "proof", D + "All flag and offset decoders; the replay is a second, bounded check."),
 "C02": (T, "proof", D + "Byte-level contracts of both importers and the cell accessor. File reading itself (std::fs) is bounded replay."),
 "C03": (T, "proof", D + "Every cell of build_cairo_execution_trace, for valid runs (memory holds what each step reads)."),
 "C04": (T, "proof", D + "All transition constraints of CairoAIR against the residuals of the Cairo equations, and CairoAIR::new. One known finding."),
 "C05": (T, "proof", D + "The contracts of build_main_trace, build_auxiliary_trace, compute_transition, boundary_constraints and CairoAIR::new composed: on the tables of a valid run every transition constraint is 0 on every row it applies to and every boundary constraint holds. The replay generates executions through the real code."),
 "C06": (T, "proof", D + "build_main_trace (recorded rows, hole rows, dummy rows) and build_auxiliary_trace with sorting and running products, up to the boundary value of the memory product. For valid runs."),
 "C07": (T, "proof", D + "Range-check holes and their rows, limb columns, builtin columns, the sorted auxiliary column and its running product, whose last cell is one. One known finding."),
 "C08": (T, "proof", D + "Every method of TraceTable and Frame."),
 "C09": (T, "proof", D + "BoundaryConstraints' interpolants and zerofiers, CairoAIR::boundary_constraints with the public memory product, the builtin column offset, and the verifier's use of them. One known finding."),
 "C10": (T, "proof", D + "The verifier's step 2 and every entry of the prover's evaluation table are one composition formula over the same quotients; when the trace satisfies its constraints the formula is a polynomial of the bounded degree. Interpolation by inverse FFT is a trusted contract on the library, replayed."),
 "C11": (T, "proof", D + "Domain construction, extension of trace columns, every sampling function. z's rejection loop has no termination measure (probability one)."),
 "C12": (T, "proof", D + "Folding, layers, commit and query phase of FRI. Merkle tree and transcript are functions of their inputs."),
 "C13": (T, "proof", D + "Prover's DEEP polynomial and openings, verifier's reconstruction, and the divisibility theorem."),
 "C14": (X, "proof", D + "verify and all its steps: acceptance implies every check. That altered accepted proofs are rejected rests on hash binding and protocol soundness, which no contract expresses; that sentence is bounded replay."),
 "C15": (X, "proof", D + "No panic, overflow or bad index is reachable from verify. Memory use and termination of z's rejection loop are bounded replay."),
 "C16": (T, "proof", D + "prove returns a proof made as the protocol prescribes, both sides draw the same functions of the message history, and such a proof of a trace that satisfies its AIR passes every check of verify. That the shipped AIRs' degrees are the ones they declare is an assumption here; the replay proves and verifies random AIRs."),
 "C17": (T, "proof", D + "Serializer/deserializer pairs against one byte-level format."),
 "C18": (T, "proof", D + "Deserializers on arbitrary bytes: no panic, overflow, bad slice or oversized capacity request. One library routine (Merkle path decoding) is behind a trusted contract."),
 "C19": (T, "proof", D + "Nonce search and check over an uninterpreted hash."),
 "C20": (T, "proof", D + "All option constructors and estimates."),
 "C21": (X, "proof", D + "Derivation of public inputs, trace and memory encoding with its read-back, generate_prover_args. The virtual machine and run_program's calls into it are behind an uninterpreted function; running program files is bounded replay over a stand-in of the machine."),
}
if __name__ == "__main__":
    json.dump({k: {"technique": t, "level": l, "note": n} for k, (t, l, n) in L.items()}, open(os.path.join(R, "tools/levels.json"), "w"), indent=1)
