// ---- prelude: what the verifier checks ----------------------------------------------------------
/// `a & b` on booleans, with both evaluated.
pub trait VxB { spec fn b(&self) -> bool; }
impl VxB for bool { open spec fn b(&self) -> bool { *self } }
impl VxB for &bool { open spec fn b(&self) -> bool { **self } }
#[verifier::external_body]
pub fn vx_and<A: VxB, B: VxB>(x: A, y: B) -> (r: bool) ensures r == (x.b() && y.b()) { unimplemented!() }
/// The value folding leads to at layer k of a query.
pub open spec fn fold_value(q: FriDecommitment, zetas: Seq<FE>, inv: int, half: int, k: int) -> int decreases k {
    if k <= 0 { q.layers_evaluations@[0]@ } else {
        let v = fold_value(q, zetas, inv, half, k - 1); let s = q.layers_evaluations_sym@[k - 1]@;
        (v + s) * half + zetas[k - 1]@ * (v - s) * half * sq(inv, k - 1)
    }
}
/// Layer k of a query: both paths open the layer's root, at the index and opposite it, and folding gives the next layer's value (the sent constant after the last).
pub open spec fn layer_accepts(proof: StarkProof, q: FriDecommitment, zetas: Seq<FE>, iota: int, order: int, inv: int, half: int, k: int) -> bool {
    let n = ipow(2, (order - k) as nat); let root = proof.fri_layers_merkle_roots@[k]@;
    &&& opens(hashes(q.layers_auth_paths@[k].merkle_path@), root, iota, q.layers_evaluations@[k].leaf())
    &&& opens(hashes(q.layers_auth_paths_sym@[k].merkle_path@), root, (iota + n / 2) % n, q.layers_evaluations_sym@[k].leaf())
    &&& congr(fold_value(q, zetas, inv, half, k + 1), if k < q.layers_evaluations@.len() - 1 { q.layers_evaluations@[k + 1]@ } else { proof.fri_last_value@ })
}
pub open spec fn query_accepts(proof: StarkProof, q: FriDecommitment, zetas: Seq<FE>, iota: int, order: int, inv: int, half: int) -> bool {
    forall|k: int| 0 <= k < proof.fri_layers_merkle_roots@.len() ==> #[trigger] layer_accepts(proof, q, zetas, iota, order, inv, half, k)
}
pub open spec fn query_shape(q: FriDecommitment, layers: int) -> bool {
    q.layers_evaluations@.len() == layers && q.layers_evaluations_sym@.len() == layers && q.layers_auth_paths@.len() == layers && q.layers_auth_paths_sym@.len() == layers
}
pub proof fn lemma_sq_congr(a: int, b: int, k: int) requires congr(a, b) ensures congr(sq(a, k), sq(b, k)) decreases k { if k > 0 { lemma_sq_congr(a, b, k - 1); lemma_congr_mul(sq(a, k - 1), sq(b, k - 1), sq(a, k - 1), sq(b, k - 1)); } }
pub proof fn lemma_fold_congr(q: FriDecommitment, zetas: Seq<FE>, i: int, j: int, h: int, g: int, k: int) requires congr(i, j), congr(h, g) ensures congr(fold_value(q, zetas, i, h, k), fold_value(q, zetas, j, g, k)) decreases k {
    if k > 0 {
        lemma_fold_congr(q, zetas, i, j, h, g, k - 1); lemma_sq_congr(i, j, k - 1);
        let (v, w, s, z) = (fold_value(q, zetas, i, h, k - 1), fold_value(q, zetas, j, g, k - 1), q.layers_evaluations_sym@[k - 1]@, zetas[k - 1]@);
        lemma_congr_add(v, w, s, s);
        lemma_congr_mul(v + s, w + s, h, g);
        lemma_congr_mul(z, z, v - s, w - s);
        lemma_congr_mul(z * (v - s), z * (w - s), h, g);
        lemma_congr_mul(z * (v - s) * h, z * (w - s) * g, sq(i, k - 1), sq(j, k - 1));
        lemma_congr_add((v + s) * h, (w + s) * g, z * (v - s) * h * sq(i, k - 1), z * (w - s) * g * sq(j, k - 1));
    }
}
/// The DEEP value of one column: over the frame rows, (opened value - claimed value) / (x - point of the row), weighted.
pub open spec fn deep_rows(v: int, ood: Frame, c: int, coeffs: Seq<FE>, div: Seq<int>, m: int) -> int decreases m {
    if m <= 0 { 0 } else { deep_rows(v, ood, c, coeffs, div, m - 1) + ((v - gcell(ood.data@, ood.row_width as int, m - 1, c)@) * div[m - 1]) * coeffs[m - 1]@ }
}
pub open spec fn deep_cols(row: Seq<FE>, ood: Frame, coeffs: Seq<Vec<FE>>, div: Seq<int>, rows: int, m: int) -> int decreases m {
    if m <= 0 { 0 } else { deep_cols(row, ood, coeffs, div, rows, m - 1) + deep_rows(row[m - 1]@, ood, m - 1, coeffs[m - 1]@, div, rows) }
}
/// The DEEP value of an opened row: every column at every frame row, and the two halves of the composition polynomial.
pub open spec fn deep_value(proof: StarkProof, o: DeepPolynomialOpenings, coeffs: Seq<Vec<FE>>, ge: int, go: int, zinv: int, div: Seq<int>, rows: int) -> int {
    deep_cols(o.lde_trace_evaluations@, proof.trace_ood_frame_evaluations, coeffs, div, rows, proof.trace_ood_frame_evaluations.row_width as int)
        + ((o.lde_composition_poly_even_evaluation@ - proof.composition_poly_even_ood_evaluation@) * zinv) * ge
        + ((o.lde_composition_poly_odd_evaluation@ - proof.composition_poly_odd_ood_evaluation@) * zinv) * go
}
pub proof fn lemma_deep_rows_congr(v: int, ood: Frame, c: int, coeffs: Seq<FE>, a: Seq<int>, b: Seq<int>, m: int) requires forall|i: int| 0 <= i < m ==> congr(#[trigger] a[i], b[i])
    ensures congr(deep_rows(v, ood, c, coeffs, a, m), deep_rows(v, ood, c, coeffs, b, m)) decreases m {
    if m > 0 {
        lemma_deep_rows_congr(v, ood, c, coeffs, a, b, m - 1);
        let d = v - gcell(ood.data@, ood.row_width as int, m - 1, c)@; let k = coeffs[m - 1]@;
        assert(congr(a[m - 1], b[m - 1]));
        lemma_congr_mul(d, d, a[m - 1], b[m - 1]); lemma_congr_mul(d * a[m - 1], d * b[m - 1], k, k);
        lemma_congr_add(deep_rows(v, ood, c, coeffs, a, m - 1), deep_rows(v, ood, c, coeffs, b, m - 1), (d * a[m - 1]) * k, (d * b[m - 1]) * k);
    }
}
pub proof fn lemma_deep_cols_congr(row: Seq<FE>, ood: Frame, coeffs: Seq<Vec<FE>>, a: Seq<int>, b: Seq<int>, rows: int, m: int) requires forall|i: int| 0 <= i < rows ==> congr(#[trigger] a[i], b[i])
    ensures congr(deep_cols(row, ood, coeffs, a, rows, m), deep_cols(row, ood, coeffs, b, rows, m)) decreases m {
    if m > 0 { lemma_deep_cols_congr(row, ood, coeffs, a, b, rows, m - 1); lemma_deep_rows_congr(row[m - 1]@, ood, m - 1, coeffs[m - 1]@, a, b, rows);
        lemma_congr_add(deep_cols(row, ood, coeffs, a, rows, m - 1), deep_cols(row, ood, coeffs, b, rows, m - 1), deep_rows(row[m - 1]@, ood, m - 1, coeffs[m - 1]@, a, rows), deep_rows(row[m - 1]@, ood, m - 1, coeffs[m - 1]@, b, rows)); }
}
pub proof fn lemma_deep_congr(proof: StarkProof, o: DeepPolynomialOpenings, coeffs: Seq<Vec<FE>>, ge: int, go: int, y: int, z: int, a: Seq<int>, b: Seq<int>, rows: int)
    requires congr(y, z), forall|i: int| 0 <= i < rows ==> congr(#[trigger] a[i], b[i])
    ensures congr(deep_value(proof, o, coeffs, ge, go, y, a, rows), deep_value(proof, o, coeffs, ge, go, z, b, rows)) {
    let w = proof.trace_ood_frame_evaluations.row_width as int; let (r, f) = (o.lde_trace_evaluations@, proof.trace_ood_frame_evaluations);
    lemma_deep_cols_congr(r, f, coeffs, a, b, rows, w);
    let d = o.lde_composition_poly_even_evaluation@ - proof.composition_poly_even_ood_evaluation@; let e = o.lde_composition_poly_odd_evaluation@ - proof.composition_poly_odd_ood_evaluation@;
    lemma_congr_mul(d, d, y, z); lemma_congr_mul(e, e, y, z); lemma_congr_mul(d * y, d * z, ge, ge); lemma_congr_mul(e * y, e * z, go, go);
    lemma_congr_add(deep_cols(r, f, coeffs, a, rows, w), deep_cols(r, f, coeffs, b, rows, w), (d * y) * ge, (d * z) * ge);
    lemma_congr_add(deep_cols(r, f, coeffs, a, rows, w) + (d * y) * ge, deep_cols(r, f, coeffs, b, rows, w) + (d * z) * ge, (e * y) * go, (e * z) * go);
}
/// 1 / (x - z g^offset) for every frame row.
pub open spec fn deep_divisors(x: int, z: int, g: int, offsets: Seq<usize>) -> Seq<int> { Seq::new(offsets.len(), |i: int| finv(x - z * ipow(g, offsets[i] as nat))) }
/// Opened values are those the proof commits to at this index.
pub open spec fn opening_authentic(proof: StarkProof, o: DeepPolynomialOpenings, iota: int, main: int) -> bool {
    let row = o.lde_trace_evaluations@;
    &&& opens(hashes(o.lde_composition_poly_proof.merkle_path@), proof.composition_poly_root@, iota, seq![rep(o.lde_composition_poly_even_evaluation), rep(o.lde_composition_poly_odd_evaluation)])
    &&& opens(hashes(o.lde_trace_merkle_proofs@[0].merkle_path@), proof.lde_trace_merkle_roots@[0]@, iota, reps(row.subrange(0, main)))
    &&& proof.lde_trace_merkle_roots@.len() == 2 ==> opens(hashes(o.lde_trace_merkle_proofs@[1].merkle_path@), proof.lde_trace_merkle_roots@[1]@, iota, reps(row.subrange(main, row.len() as int)))
}
/// Query s: the opening is authentic and the first FRI layer holds the DEEP value of the opened row.
pub open spec fn opening_accepts(air: &VxAir, proof: StarkProof, d: Domain, c: Challenges, s: int) -> bool {
    let o = proof.deep_poly_openings@[s]; let x = d.lde_roots_of_unity_coset@[c.iotas@[s] as int]@;
    &&& opening_authentic(proof, o, c.iotas@[s] as int, air.s_ctx().trace_columns - air.s_naux())
    &&& congr(proof.query_list@[s].layers_evaluations@[0]@, deep_value(proof, o, c.trace_term_coeffs@, c.gamma_even@, c.gamma_odd@, finv(x - c.z@ * c.z@),
        deep_divisors(x, c.z@, omega(d.root_order as int), air.s_ctx().transition_offsets@), air.s_ctx().transition_offsets@.len() as int))
}
/// The denominators of the DEEP value at this point of the evaluation domain are not zero.
pub open spec fn deep_defined(air: &VxAir, d: Domain, c: Challenges, iota: int) -> bool {
    let x = d.lde_roots_of_unity_coset@[iota]@;
    !congr(x - c.z@ * c.z@, 0) && forall|k: int| 0 <= k < air.s_ctx().transition_offsets@.len() ==> !congr(x - c.z@ * ipow(omega(d.root_order as int), #[trigger] air.s_ctx().transition_offsets@[k] as nat), 0)
}
/// The proof has exactly the parts the AIR and the options call for.
pub open spec fn paths_shape(p: Seq<Proof>, layers: int, len: int) -> bool { p.len() == layers && forall|k: int| 0 <= k < layers ==> (#[trigger] p[k]).merkle_path@.len() == len - k }
pub open spec fn opening_shape(o: DeepPolynomialOpenings, roots: int, len: int, cols: int) -> bool {
    o.lde_composition_poly_proof.merkle_path@.len() == len && o.lde_trace_merkle_proofs@.len() == roots && (forall|i: int| 0 <= i < roots ==> (#[trigger] o.lde_trace_merkle_proofs@[i]).merkle_path@.len() == len) && o.lde_trace_evaluations@.len() == cols
}
pub open spec fn query_ok(q: FriDecommitment, layers: int, len: int) -> bool { query_shape(q, layers) && paths_shape(q.layers_auth_paths@, layers, len) && paths_shape(q.layers_auth_paths_sym@, layers, len) }
/// A trace length whose trace and evaluation domains exist.
pub open spec fn length_ok(n: int, blowup: int) -> bool { n > 1 && is_pow2(n) && n * blowup <= usize::MAX && is_pow2(n * blowup) && tz(n * blowup) <= two_adicity() }
pub open spec fn shape_ok(air: &VxAir, proof: StarkProof) -> bool {
    let c = air.s_ctx(); let nq = air.s_options().fri_number_of_queries as int; let roots = if air.s_naux() > 0 { 2int } else { 1int };
    let layers = tz(proof.trace_length as int); let len = layers + tz(air.s_options().blowup_factor as int);
    let f = proof.trace_ood_frame_evaluations;
    &&& f.row_width == c.trace_columns && f.data@.len() == c.transition_offsets@.len() * c.trace_columns
    &&& proof.lde_trace_merkle_roots@.len() == roots && proof.fri_layers_merkle_roots@.len() == layers
    &&& proof.query_list@.len() == nq && (forall|s: int| 0 <= s < nq ==> query_ok(#[trigger] proof.query_list@[s], layers, len))
    &&& proof.deep_poly_openings@.len() == nq && forall|s: int| 0 <= s < nq ==> opening_shape(#[trigger] proof.deep_poly_openings@[s], roots, len, c.trace_columns as int)
}
/// The challenges have the sizes the steps read them at.
pub open spec fn challenges_shape(air: &VxAir, proof: StarkProof, d: Domain, c: Challenges) -> bool {
    &&& c.iotas@.len() == air.s_options().fri_number_of_queries && forall|s: int| 0 <= s < c.iotas@.len() ==> (#[trigger] c.iotas@[s]) < d.lde_roots_of_unity_coset@.len()
    &&& c.zetas@.len() == proof.fri_layers_merkle_roots@.len()
    &&& c.trace_term_coeffs@.len() == air.s_ctx().trace_columns && forall|i: int| 0 <= i < c.trace_term_coeffs@.len() ==> (#[trigger] c.trace_term_coeffs@[i])@.len() == air.s_ctx().transition_offsets@.len()
    &&& c.boundary_coeffs@.len() == air.s_boundary(c.rap_challenges).constraints@.len() && c.transition_coeffs@.len() == air.s_ctx().num_transition_constraints
}
pub open spec fn one_query(proof: StarkProof, d: Domain, c: Challenges, s: int) -> bool {
    query_accepts(proof, proof.query_list@[s], c.zetas@, c.iotas@[s] as int, d.lde_root_order as int, finv(d.lde_roots_of_unity_coset@[c.iotas@[s] as int]@), finv(2))
}
/// Every query folds consistently and is authenticated at every layer.
pub open spec fn all_queries(proof: StarkProof, d: Domain, c: Challenges) -> bool { forall|s: int| 0 <= s < c.iotas@.len() ==> #[trigger] one_query(proof, d, c, s) }
pub open spec fn all_openings(air: &VxAir, proof: StarkProof, d: Domain, c: Challenges) -> bool { forall|s: int| 0 <= s < c.iotas@.len() ==> #[trigger] opening_accepts(air, proof, d, c, s) }
pub proof fn lemma_query_congr(proof: StarkProof, q: FriDecommitment, zetas: Seq<FE>, iota: int, order: int, i: int, j: int, h: int, g: int) requires congr(i, j), congr(h, g)
    ensures query_accepts(proof, q, zetas, iota, order, i, h) == query_accepts(proof, q, zetas, iota, order, j, g) {
    assert forall|k: int| #[trigger] layer_accepts(proof, q, zetas, iota, order, i, h, k) == layer_accepts(proof, q, zetas, iota, order, j, g, k) by { lemma_fold_congr(q, zetas, i, j, h, g, k + 1); }
    assert forall|k: int| #[trigger] layer_accepts(proof, q, zetas, iota, order, j, g, k) == layer_accepts(proof, q, zetas, iota, order, i, h, k) by { lemma_fold_congr(q, zetas, i, j, h, g, k + 1); }
}
