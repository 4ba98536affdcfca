// ---- prelude: the DEEP polynomial on the prover's side ------------------------------------------------
pub open spec fn shifted(z: int, g: int, offs: Seq<usize>, k: int) -> int { z * ipow(g, offs[k] as nat) }
/// One column at x: over the frame rows, (value - claimed value) / (x - point it was claimed at), weighted.
pub open spec fn deep_prow(tv: int, i: int, ev: Seq<Vec<FE>>, offs: Seq<usize>, z: int, g: int, x: int, gam: Seq<FE>, base: int, m: int) -> int decreases m {
    if m <= 0 { 0 } else { deep_prow(tv, i, ev, offs, z, g, x, gam, base, m - 1) + ((tv - ev[m - 1]@[i]@) * finv(x - shifted(z, g, offs, m - 1))) * gam[base + m - 1]@ }
}
pub open spec fn deep_pcols(t: Seq<Polynomial<FE>>, ev: Seq<Vec<FE>>, offs: Seq<usize>, z: int, g: int, x: int, gam: Seq<FE>, m: int) -> int decreases m {
    if m <= 0 { 0 } else { deep_pcols(t, ev, offs, z, g, x, gam, m - 1) + deep_prow(peval(t[m - 1]@, x), m - 1, ev, offs, z, g, x, gam, (m - 1) * offs.len(), offs.len() as int) }
}
pub open spec fn half_term(h: Seq<int>, claimed: int, z2: int, x: int, c: int) -> int { ((peval(h, x) - claimed) * finv(x - z2)) * c }
/// x is none of the points something was claimed at.
pub open spec fn regular(x: int, z: int, g: int, offs: Seq<usize>) -> bool { !congr(x - z * z, 0) && forall|k: int| 0 <= k < offs.len() ==> !congr(x - #[trigger] shifted(z, g, offs, k), 0) }
/// Every claimed value of the frame is the value of its column there.
pub open spec fn frame_true(t: Seq<Polynomial<FE>>, ev: Seq<Vec<FE>>, offs: Seq<usize>, z: int, g: int) -> bool {
    ev.len() == offs.len() && forall|k: int, i: int| 0 <= k < offs.len() && 0 <= i < t.len() ==> (#[trigger] ev[k])@.len() == t.len() && congr(ev[k]@[i]@, #[trigger] peval(t[i]@, shifted(z, g, offs, k)))
}
pub open spec fn lens_within(t: Seq<Polynomial<FE>>, h1: Seq<int>, h2: Seq<int>, l: int) -> bool { l >= 1 && h1.len() <= l && h2.len() <= l && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@.len() <= l }
pub proof fn lemma_quotient(a: int, d: int, q: int, r: int) requires congr(a, d * q + r), congr(r, 0), !congr(d, 0) ensures congr(q, a * finv(d)) {
    let f = finv(d); lemma_inverse(d);
    lemma_congr_add(d * q, d * q, r, 0); 
    lemma_congr_mul(a, d * q, f, f); assert((d * q) * f == q * (d * f)) by (nonlinear_arith);
    lemma_congr_mul(q, q, d * f, 1); assert(q * 1 == q);
}
/// A claim that is not true has no polynomial quotient.
pub proof fn theorem_false_claim(p: Seq<int>, q: Seq<int>, b: int, v: int) requires !congr(peval(p, b), v) ensures exists|x: int| !congr(#[trigger] peval(p, x) - v, (x - b) * peval(q, x)) {
    assert((b - b) * peval(q, b) == 0) by (nonlinear_arith);
    lemma_congr_sub_zero(peval(p, b), v);
    assert(!congr(peval(p, b) - v, (b - b) * peval(q, b)));
}
pub proof fn lemma_half(p: Seq<int>, q: Seq<int>, h: Seq<int>, v: int, b: int, x: int, c: int)
    requires congr(peval(p, x), c * (peval(h, x) - v)), congr(peval(p, b), c * (peval(h, b) - v)), congr(peval(h, b), v), !congr(x - b, 0), congr(peval(p, x), (x - b) * peval(q, x) + peval(p, b))
    ensures congr(peval(q, x), half_term(h, v, b, x, c)) {
    let f = finv(x - b); let d = peval(h, x) - v;
    lemma_congr_sub_zero(peval(h, b), v); lemma_congr_mul(c, c, peval(h, b) - v, 0); assert(c * 0 == 0);
    lemma_quotient(c * d, x - b, peval(q, x), peval(p, b));
    assert((c * d) * f == (d * f) * c) by (nonlinear_arith);
}
/// The tables of rounds 1 and 2 over an extended domain of this size, and the trees over them.
pub open spec fn committed(r1: Round1, r2: Round2, size: int) -> bool {
    &&& r1.lde_trace.wf() && r1.lde_trace.nr() == size
    &&& r2.lde_composition_poly_even_evaluations@.len() == size && r2.lde_composition_poly_odd_evaluations@.len() == size
    &&& r2.composition_poly_merkle_tree.leaves@.len() == size && r2.composition_poly_merkle_tree.root@ == merkle_root(r2.composition_poly_merkle_tree.leaves@)
    &&& forall|k: int| 0 <= k < r1.lde_trace_merkle_trees@.len() ==> (#[trigger] r1.lde_trace_merkle_trees@[k]).leaves@.len() == size && r1.lde_trace_merkle_trees@[k].root@ == merkle_root(r1.lde_trace_merkle_trees@[k].leaves@)
}
/// An opening holds the values of this row of every table and paths that open every tree there.
pub open spec fn opens_row(o: DeepPolynomialOpenings, r1: Round1, r2: Round2, i: int) -> bool {
    &&& path_fits(o.lde_composition_poly_proof, r2.composition_poly_merkle_tree.leaves@.len() as int)
    &&& opens(hashes(o.lde_composition_poly_proof.merkle_path@), r2.composition_poly_merkle_tree.root@, i, r2.composition_poly_merkle_tree.leaves@[i])
    &&& o.lde_composition_poly_even_evaluation == r2.lde_composition_poly_even_evaluations@[i] && o.lde_composition_poly_odd_evaluation == r2.lde_composition_poly_odd_evaluations@[i]
    &&& o.lde_trace_merkle_proofs@.len() == r1.lde_trace_merkle_trees@.len() && forall|k: int| 0 <= k < o.lde_trace_merkle_proofs@.len() ==>
        path_fits(o.lde_trace_merkle_proofs@[k], r1.lde_trace_merkle_trees@[k].leaves@.len() as int) && opens(hashes((#[trigger] o.lde_trace_merkle_proofs@[k]).merkle_path@), r1.lde_trace_merkle_trees@[k].root@, i, r1.lde_trace_merkle_trees@[k].leaves@[i])
    &&& o.lde_trace_evaluations@.len() == r1.lde_trace.n_cols && forall|c: int| 0 <= c < o.lde_trace_evaluations@.len() ==> #[trigger] o.lde_trace_evaluations@[c] == r1.lde_trace.cell(i, c)
}
pub proof fn lemma_small_index(i: int, n: int) requires 0 <= i < n ensures i % n == i { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, n as nat); }
