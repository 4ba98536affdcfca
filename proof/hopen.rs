// ---- prelude: an honest opening passes ---------------------------------------------------------------
/// Point i of the extended domain of this AIR.
pub open spec fn coset_point(air: &VxAir, i: int) -> int { air.s_options().coset_offset as int * ipow(omega(log2(air.s_trace_length() * air.s_options().blowup_factor)), i as nat) }
pub proof fn lemma_finv_congr(a: int, b: int) requires congr(a, b), !congr(a, 0) ensures congr(finv(a), finv(b)) {
    lemma_inverse(b); let f = finv(b); lemma_congr_mul(a, b, f, f); lemma_finv(a, f);
}
/// Columns as the prover extended them, at the opened point.
pub proof fn lemma_row_says(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, d: Domain, c: Challenges, s: int, x: int)
    requires honest(air, main, p, h), domain_of(d, air), same_challenges(air, p, h, c), 0 <= s < h.w.iotas.len(), x == d.lde_roots_of_unity_coset@[h.w.iotas[s] as int]@, 0 <= h.w.iotas[s] < size_of(h.d), opens_row(p.deep_poly_openings@[s], h.r1, h.r2, h.w.iotas[s] as int)
    ensures row_says(h.r1.trace_polys@, h.r3.trace_ood_evaluations@, air.s_ctx().transition_offsets@, h.w.gam, x, p, p.deep_poly_openings@[s], c.trace_term_coeffs@)
{
    let t = h.r1.trace_polys@; let ev = h.r3.trace_ood_evaluations@; let o = p.deep_poly_openings@[s]; let i = h.w.iotas[s] as int; let m = air.s_ctx().transition_offsets@.len() as int; let f = p.trace_ood_frame_evaluations; let n = t.len() as int;
    let y = h.d.coset_offset@ * ipow(omega(log2(size_of(h.d))), i as nat); assert(congr(x, y));
    assert forall|j: int| 0 <= j < t.len() implies congr(o.lde_trace_evaluations@[j]@, #[trigger] peval(t[j]@, x)) by {
        assert(o.lde_trace_evaluations@[j] == h.r1.lde_trace.cell(i, j)); lemma_peval_x(t[j]@, x, y); assert(congr(h.r1.lde_trace.cell(i, j)@, peval(t[j]@, y)));
    }
    assert forall|k: int| 0 <= k < ev.len() implies (#[trigger] ev[k])@.len() == n by { let pk = peval(t[0]@, shifted(h.z, h.d.trace_primitive_root@, air.s_ctx().transition_offsets@, k)); assert(ev[k]@.len() == n); }
    lemma_flat(ev, n, m);
    assert forall|j: int, k: int| 0 <= j < n && 0 <= k < m implies congr((#[trigger] gcell(f.data@, n, k, j))@, ev[k]@[j]@) by { assert(gcell(flat(ev, m), n, k, j) == ev[k]@[j]); }
}
/// The DEEP value of an honest opening is the value of the first FRI layer.
pub proof fn lemma_deep_opened(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, d: Domain, c: Challenges, s: int)
    requires honest(air, main, p, h), domain_of(d, air), same_challenges(air, p, h, c), 0 <= s < h.w.iotas.len(), 0 <= h.w.iotas[s] < size_of(h.d), opens_row(p.deep_poly_openings@[s], h.r1, h.r2, h.w.iotas[s] as int),
        regular(d.lde_roots_of_unity_coset@[h.w.iotas[s] as int]@, h.z, h.d.trace_primitive_root@, air.s_ctx().transition_offsets@),
    ensures ({ let x = d.lde_roots_of_unity_coset@[h.w.iotas[s] as int]@; let offs = air.s_ctx().transition_offsets@;
        congr(deep_value(p, p.deep_poly_openings@[s], c.trace_term_coeffs@, c.gamma_even@, c.gamma_odd@, finv(x - c.z@ * c.z@), deep_divisors(x, c.z@, omega(d.root_order as int), offs), offs.len() as int), peval(h.w.p, x)) })
{
    let i = h.w.iotas[s] as int; let x = d.lde_roots_of_unity_coset@[i]@; let offs = air.s_ctx().transition_offsets@; let o = p.deep_poly_openings@[s]; let g = h.d.trace_primitive_root@; let (z, y) = (h.z, c.z@);
    let (t, ev) = (h.r1.trace_polys@, h.r3.trace_ood_evaluations@);
    assert(g == omega(d.root_order as int));
    lemma_row_says(air, main, p, h, d, c, s, x);
    lemma_congr_mul(z, y, z, y); lemma_congr_add(x, x, z * z, y * y); lemma_finv_congr(x - z * z, x - y * y);
    let (a, b) = (deep_divisors(x, y, g, offs), deep_divisors(x, z, g, offs));
    assert forall|k: int| 0 <= k < offs.len() implies congr(#[trigger] a[k], b[k]) by {
        let w = ipow(g, offs[k] as nat); lemma_congr_mul(z, y, w, w); lemma_congr_add(x, x, z * w, y * w); assert(!congr(x - shifted(z, g, offs, k), 0)); lemma_finv_congr(x - z * w, x - y * w);
    }
    let (fa, fb) = (finv(x - y * y), finv(x - z * z)); assert(congr(fa, fb));
    lemma_deep_congr(p, o, c.trace_term_coeffs@, c.gamma_even@, c.gamma_odd@, fa, fb, a, b, offs.len() as int);
    let (h1, h2) = (h.r2.composition_poly_even@, h.r2.composition_poly_odd@); let (v1, v2) = (h.r3.composition_poly_even_ood_evaluation@, h.r3.composition_poly_odd_ood_evaluation@);
    let yy = h.d.coset_offset@ * ipow(omega(log2(size_of(h.d))), i as nat); assert(congr(x, yy)); lemma_peval_x(h1, x, yy); lemma_peval_x(h2, x, yy);
    assert(congr(h.r2.lde_composition_poly_even_evaluations@[i]@, peval(h1, yy))); assert(congr(h.r2.lde_composition_poly_odd_evaluations@[i]@, peval(h2, yy)));
    theorem_deep_agrees(t, ev, offs, h.w.gam, z, g, x, p, o, c.trace_term_coeffs@, h1, h2, v1, v2, h.w.ge, h.w.go, c.gamma_even@, c.gamma_odd@);
    assert(congr(peval(h.w.p, x), half_term(h1, v1, z * z, x, h.w.ge) + half_term(h2, v2, z * z, x, h.w.go) + deep_pcols(t, ev, offs, z, g, x, h.w.gam, t.len() as int)));
}
/// The opened values are those committed to.
pub proof fn lemma_authentic(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, s: int, i: int)
    requires honest(air, main, p, h), 0 <= i < size_of(h.d), opens_row(p.deep_poly_openings@[s], h.r1, h.r2, i)
    ensures opening_authentic(p, p.deep_poly_openings@[s], i, air.s_ctx().trace_columns - air.s_naux()), opening_shape(p.deep_poly_openings@[s], if air.s_naux() > 0 { 2int } else { 1int }, log2(size_of(h.d)), air.s_ctx().trace_columns as int)
{
    let o = p.deep_poly_openings@[s]; let row = o.lde_trace_evaluations@; let (m, k) = (main.n_cols as int, air.s_naux()); let size = size_of(h.d); let t = h.r1.lde_trace;
    let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); lemma_pow2_mul(n, b); assert(size == n * b);
    lemma_committed(air, main, h.d, Seq::empty(), h.r1, h.bc, h.tc, h.r2);
    let trees = h.r1.lde_trace_merkle_trees@;
    assert(h.r2.composition_poly_merkle_tree.leaves@[i] == pair_leaf(h.r2.lde_composition_poly_even_evaluations@, h.r2.lde_composition_poly_odd_evaluations@, i));
    assert(trees[0].leaves@[i] == row_part(t, i, 0, m)); assert(reps(row.subrange(0, m)) =~= row_part(t, i, 0, m)) by { assert forall|c: int| 0 <= c < m implies reps(row.subrange(0, m))[c] == #[trigger] row_part(t, i, 0, m)[c] by { assert(row[c] == t.cell(i, c)); } }
    assert(opens(hashes(o.lde_trace_merkle_proofs@[0].merkle_path@), trees[0].root@, i, trees[0].leaves@[i])); assert(h.r1.lde_trace_merkle_roots@[0]@ == trees[0].root@);
    if k > 0 {
        assert(trees[1].leaves@[i] == row_part(t, i, m, m + k)); assert(reps(row.subrange(m, m + k)) =~= row_part(t, i, m, m + k)) by { assert forall|c: int| 0 <= c < k implies reps(row.subrange(m, m + k))[c] == #[trigger] row_part(t, i, m, m + k)[c] by { assert(row[m + c] == t.cell(i, m + c)); } }
        assert(opens(hashes(o.lde_trace_merkle_proofs@[1].merkle_path@), trees[1].root@, i, trees[1].leaves@[i])); assert(h.r1.lde_trace_merkle_roots@[1]@ == trees[1].root@);
    }
    assert forall|j: int| 0 <= j < o.lde_trace_merkle_proofs@.len() implies (#[trigger] o.lde_trace_merkle_proofs@[j]).merkle_path@.len() == log2(size) by { assert(path_fits(o.lde_trace_merkle_proofs@[j], trees[j].leaves@.len() as int)); assert(trees[j].leaves@.len() == size); }
}
