// ---- prelude: what the prover's later rounds use and leave ----------------------------------------
impl Clone for VxAir { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// Even and odd coefficients, at x: p(x) = even(x^2) + x odd(x^2).
pub open spec fn halves_at(e: Seq<int>, o: Seq<int>, x: int) -> int { peval(e, x * x) + x * peval(o, x * x) }
impl Polynomial<FE> {
    /// The polynomial through the points (offset root^i, v[i]) of the domain of v.len() points.
    #[verifier::external_body]
    pub fn interpolate_offset_fft(v: &[FE], offset: &FE) -> (r: Result<Polynomial<FE>, FFTError>) requires !congr(offset@, 0)
        ensures is_pow2(v@.len() as int) && log2(v@.len() as int) <= two_adicity() ==> r.is_ok(),
            r.is_ok() ==> r->Ok_0@.len() <= v@.len() && forall|i: int| 0 <= i < v@.len() ==> congr(peval(r->Ok_0@, offset@ * ipow(omega(log2(v@.len() as int)), i as nat)), (#[trigger] v@[i])@) { unimplemented!() }
    #[verifier::external_body]
    pub fn even_odd_decomposition(&self) -> (r: (Self, Self))
        ensures forall|x: int| congr(#[trigger] peval(self@, x), halves_at(r.0@, r.1@, x)), 2 * r.0@.len() <= self@.len() + 1, 2 * r.1@.len() <= self@.len() { unimplemented!() }
}
/// Point i of the extended domain.
pub open spec fn lde_point(d: Domain, i: int) -> int { d.coset_offset@ * ipow(omega(log2(size_of(d))), i as nat) }
/// The halves recombine to the composition values on the extended domain.
pub open spec fn halves_of(air: &VxAir, r1: Round1, d: Domain, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>, e: Seq<int>, o: Seq<int>) -> bool {
    forall|i: int| 0 <= i < size_of(d) ==> congr(halves_at(e, o, #[trigger] lde_point(d, i)), eval_at(air, r1.rap_challenges, r1.lde_trace, d, i, bc, tc))
}
pub open spec fn pair_leaf(e: Seq<FE>, o: Seq<FE>, i: int) -> Seq<int> { seq![rep(e[i]), rep(o[i])] }
/// What the second round leaves: the two halves, their values on the extended domain and the tree over them.
pub open spec fn round2_ok(air: &VxAir, d: Domain, r1: Round1, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>, r: Round2) -> bool {
    let size = size_of(d); let (e, o) = (r.composition_poly_even@, r.composition_poly_odd@); let (ve, vo) = (r.lde_composition_poly_even_evaluations@, r.lde_composition_poly_odd_evaluations@);
    &&& halves_of(air, r1, d, bc, tc, e, o) && 2 * e.len() <= size && 2 * o.len() <= size
    &&& on_domain(ve, e, d.coset_offset@, size) && on_domain(vo, o, d.coset_offset@, size)
    &&& tree_of(r.composition_poly_merkle_tree, Seq::new(size as nat, |i: int| pair_leaf(ve, vo, i))) && r.composition_poly_root@ == r.composition_poly_merkle_tree.root@
}
/// Everything the prover's rounds rely on: a lawful AIR, its domain, sizes within reach, a coset off the trace domain.
pub open spec fn provable(air: &VxAir, d: Domain) -> bool {
    let (n, b, h) = (air.s_trace_length(), air.s_options().blowup_factor as int, air.s_options().coset_offset as int);
    lawful(air) && prover_law(air) && domain_of(d, air) && sizes_ok(n, b) && coset_avoids(h, n, b) && !congr(h, 0) && spare_ok(n, b)
}
/// Room for extending a polynomial of half the extended domain's length.
pub open spec fn spare_ok(n: int, b: int) -> bool { log2(n) + 2 * log2(b) <= two_adicity() && (n * b) * b <= 0x1000_0000_0000_0000 }
pub proof fn lemma_next_pow2_le(m: int, k: int) requires is_pow2(k), m <= k ensures next_pow2(m) <= k {
    lemma_next_pow2_is(m); let q = next_pow2(m);
    if q > k { if m <= 1 { assert(q == 1); } else { assert(q / 2 < m); assert(q < 2 * k) by { assert(q == 2 * (q / 2) || q == 1); } lemma_pow2_between(q, k); } }
}
pub proof fn lemma_log2_mono(a: int, b: int) requires is_pow2(a), is_pow2(b), a <= b ensures log2(a) <= log2(b) { lemma_pow2_div(b, a); lemma_log2_nonneg(b / a); }
pub proof fn lemma_half_len(l: int, n: int, b: int) requires sizes_ok(n, b), spare_ok(n, b), 0 <= 2 * l <= n * b
    ensures l <= 0x4000_0000_0000_0000, fft_len(l, n) * b <= 0x1000_0000_0000_0000, log2(fft_len(l, n) * b) <= two_adicity()
{
    let c = b / 2; assert(b == 2 * c); assert(n * b == 2 * (n * c)) by (nonlinear_arith) requires b == 2 * c; let k = n * c; lemma_pow2_mul(n, b); assert(is_pow2(n * c)) by { lemma_pow2_mul(n, c); }
    assert(n <= k) by (nonlinear_arith) requires k == n * c, c >= 1, n >= 1;
    let f = fft_len(l, n); lemma_next_pow2_le(if l > n { l } else { n }, k); lemma_next_pow2_is(if l > n { l } else { n });
    assert(f * b <= (n * b) * b) by (nonlinear_arith) requires f <= k, n * b == 2 * k, b >= 0, k >= 0;
    lemma_pow2_mul(f, b); lemma_log2_mono(f, n * b); 
}
/// The out-of-domain values are those of the committed polynomials.
pub open spec fn round3_ok(air: &VxAir, d: Domain, r1: Round1, r2: Round2, z: int, r: Round3) -> bool {
    &&& r.composition_poly_even_ood_evaluation@ == peval(r2.composition_poly_even@, z * z) && r.composition_poly_odd_ood_evaluation@ == peval(r2.composition_poly_odd@, z * z)
    &&& frame_true(r1.trace_polys@, r.trace_ood_evaluations@, air.s_ctx().transition_offsets@, z, d.trace_primitive_root@)
}
