// ---- prelude: the value the verifier reconstructs is the prover's polynomial at that point -------------
/// What an opened row and the claims of the proof say about the prover's polynomials.
pub open spec fn row_says(t: Seq<Polynomial<FE>>, ev: Seq<Vec<FE>>, offs: Seq<usize>, gam: Seq<FE>, x: int, p: StarkProof, o: DeepPolynomialOpenings, coeffs: Seq<Vec<FE>>) -> bool {
    let f = p.trace_ood_frame_evaluations; let m = offs.len() as int;
    &&& f.row_width == t.len() && ev.len() == m && coeffs.len() == t.len()
    &&& forall|i: int| 0 <= i < t.len() ==> congr(o.lde_trace_evaluations@[i]@, #[trigger] peval(t[i]@, x))
    &&& forall|i: int, k: int| 0 <= i < t.len() && 0 <= k < m ==> congr((#[trigger] gcell(f.data@, t.len() as int, k, i))@, ev[k]@[i]@)
    &&& forall|i: int, k: int| 0 <= i < t.len() && 0 <= k < m ==> congr((#[trigger] coeffs[i]@[k])@, gam[i * m + k]@)
}
proof fn lemma_rows_agree(t: Seq<Polynomial<FE>>, ev: Seq<Vec<FE>>, offs: Seq<usize>, gam: Seq<FE>, z: int, g: int, x: int, p: StarkProof, o: DeepPolynomialOpenings, coeffs: Seq<Vec<FE>>, i: int, m: int)
    requires row_says(t, ev, offs, gam, x, p, o, coeffs), 0 <= i < t.len(), 0 <= m <= offs.len()
    ensures congr(deep_rows(o.lde_trace_evaluations@[i]@, p.trace_ood_frame_evaluations, i, coeffs[i]@, deep_divisors(x, z, g, offs), m), deep_prow(peval(t[i]@, x), i, ev, offs, z, g, x, gam, i * offs.len(), m)) decreases m {
    if m > 0 {
        let k = m - 1; lemma_rows_agree(t, ev, offs, gam, z, g, x, p, o, coeffs, i, k);
        let d = deep_divisors(x, z, g, offs)[k]; let (v, c, b) = (o.lde_trace_evaluations@[i]@, gcell(p.trace_ood_frame_evaluations.data@, t.len() as int, k, i)@, coeffs[i]@[k]@); let (w, e, a) = (peval(t[i]@, x), ev[k]@[i]@, gam[i * offs.len() + k]@);
        assert(d == finv(x - shifted(z, g, offs, k)));
        lemma_congr_add(v, w, c, e); lemma_congr_mul(v - c, w - e, d, d); lemma_congr_mul((v - c) * d, (w - e) * d, b, a);
        lemma_congr_add(deep_rows(v, p.trace_ood_frame_evaluations, i, coeffs[i]@, deep_divisors(x, z, g, offs), k), deep_prow(w, i, ev, offs, z, g, x, gam, i * offs.len(), k), ((v - c) * d) * b, ((w - e) * d) * a);
    }
}
proof fn lemma_cols_agree(t: Seq<Polynomial<FE>>, ev: Seq<Vec<FE>>, offs: Seq<usize>, gam: Seq<FE>, z: int, g: int, x: int, p: StarkProof, o: DeepPolynomialOpenings, coeffs: Seq<Vec<FE>>, n: int)
    requires row_says(t, ev, offs, gam, x, p, o, coeffs), 0 <= n <= t.len()
    ensures congr(deep_cols(o.lde_trace_evaluations@, p.trace_ood_frame_evaluations, coeffs, deep_divisors(x, z, g, offs), offs.len() as int, n), deep_pcols(t, ev, offs, z, g, x, gam, n)) decreases n {
    if n > 0 {
        lemma_cols_agree(t, ev, offs, gam, z, g, x, p, o, coeffs, n - 1); lemma_rows_agree(t, ev, offs, gam, z, g, x, p, o, coeffs, n - 1, offs.len() as int);
        lemma_congr_add(deep_cols(o.lde_trace_evaluations@, p.trace_ood_frame_evaluations, coeffs, deep_divisors(x, z, g, offs), offs.len() as int, n - 1), deep_pcols(t, ev, offs, z, g, x, gam, n - 1),
            deep_rows(o.lde_trace_evaluations@[n - 1]@, p.trace_ood_frame_evaluations, n - 1, coeffs[n - 1]@, deep_divisors(x, z, g, offs), offs.len() as int), deep_prow(peval(t[n - 1]@, x), n - 1, ev, offs, z, g, x, gam, (n - 1) * offs.len(), offs.len() as int));
    }
}
/// Equal rows, claims and coefficients: the verifier's value is the one compute_deep_composition_poly's contract gives its polynomial.
pub proof fn theorem_deep_agrees(t: Seq<Polynomial<FE>>, ev: Seq<Vec<FE>>, offs: Seq<usize>, gam: Seq<FE>, z: int, g: int, x: int, p: StarkProof, o: DeepPolynomialOpenings, coeffs: Seq<Vec<FE>>, h1: Seq<int>, h2: Seq<int>, v1: int, v2: int, g0: int, g1: int, ge: int, go: int)
    requires row_says(t, ev, offs, gam, x, p, o, coeffs), congr(ge, g0), congr(go, g1),
        congr(o.lde_composition_poly_even_evaluation@, peval(h1, x)), congr(o.lde_composition_poly_odd_evaluation@, peval(h2, x)), congr(p.composition_poly_even_ood_evaluation@, v1), congr(p.composition_poly_odd_ood_evaluation@, v2),
    ensures congr(deep_value(p, o, coeffs, ge, go, finv(x - z * z), deep_divisors(x, z, g, offs), offs.len() as int),
        half_term(h1, v1, z * z, x, g0) + half_term(h2, v2, z * z, x, g1) + deep_pcols(t, ev, offs, z, g, x, gam, t.len() as int))
{
    let f = finv(x - z * z); let c = deep_cols(o.lde_trace_evaluations@, p.trace_ood_frame_evaluations, coeffs, deep_divisors(x, z, g, offs), offs.len() as int, t.len() as int); let d = deep_pcols(t, ev, offs, z, g, x, gam, t.len() as int);
    lemma_cols_agree(t, ev, offs, gam, z, g, x, p, o, coeffs, t.len() as int);
    let (a1, b1) = (o.lde_composition_poly_even_evaluation@ - p.composition_poly_even_ood_evaluation@, peval(h1, x) - v1); let (a2, b2) = (o.lde_composition_poly_odd_evaluation@ - p.composition_poly_odd_ood_evaluation@, peval(h2, x) - v2);
    lemma_congr_add(o.lde_composition_poly_even_evaluation@, peval(h1, x), p.composition_poly_even_ood_evaluation@, v1); lemma_congr_add(o.lde_composition_poly_odd_evaluation@, peval(h2, x), p.composition_poly_odd_ood_evaluation@, v2);
    lemma_congr_mul(a1, b1, f, f); lemma_congr_mul(a1 * f, b1 * f, ge, g0); lemma_congr_mul(a2, b2, f, f); lemma_congr_mul(a2 * f, b2 * f, go, g1);
    lemma_congr_add(c, d, (a1 * f) * ge, (b1 * f) * g0); lemma_congr_add(c + (a1 * f) * ge, d + (b1 * f) * g0, (a2 * f) * go, (b2 * f) * g1);
}
