// ---- prelude: the verifier as a whole ----------------------------------------------------------------
#[verifier::external_body]
pub struct PubInput { x: u8 }
impl VxAir {
    /// The AIR for this trace length, public input and options.
    pub uninterp spec fn s_new(n: int, p: PubInput, o: ProofOptions) -> VxAir;
    #[verifier::external_body]
    pub fn new(n: usize, p: &PubInput, o: &ProofOptions) -> (r: VxAir) requires length_ok(n as int, o.blowup_factor as int)
        ensures r == VxAir::s_new(n as int, *p, *o), r.s_trace_length() == n, r.s_options() == *o, lawful(&r) { unimplemented!() }
}
pub axiom fn axiom_new_options(n: int, p: PubInput, o: ProofOptions) ensures VxAir::s_new(n, p, o).s_options() == o;
pub proof fn lemma_log2_le(n: int, k: nat) requires is_pow2(n), n <= ipow(2, k) ensures 0 <= log2(n) <= k { lemma_log2_bound(n); if log2(n) > k { lemma_ipow2_mono((k + 1) as nat, log2(n) as nat); lemma_ipow2_mono(0, k); } }
impl VxTranscript {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.log() == Seq::<Ev>::empty() { unimplemented!() }
}
/// Every check on a proof of acceptable shape.
pub open spec fn verdict(air: &VxAir, p: StarkProof, d: Domain, c: Challenges) -> bool {
    c.leading_zeros_count >= air.s_options().grinding_factor && composition_accepts(air, p, c) && all_queries(p, d, c) && all_openings(air, p, d, c)
}
/// The square of the out-of-domain point is not in the extended domain either.
pub open spec fn z2_outside(d: Domain, c: Challenges) -> bool { forall|i: int| 0 <= i < d.lde_roots_of_unity_coset@.len() ==> !congr((#[trigger] d.lde_roots_of_unity_coset@[i])@ - c.z@ * c.z@, 0) }
/// A coset point x with x = z g^o puts z into the coset as well.
pub proof fn lemma_shifted(z: int, h: int, k: int, s: int, i: int, o: int) -> (j: int)
    requires 1 <= k, s >= 0, k + s <= two_adicity(), 0 <= i < ipow(2, (k + s) as nat), o >= 0, congr(h * ipow(omega(k + s), i as nat), z * ipow(omega(k), o as nat))
    ensures 0 <= j < ipow(2, (k + s) as nat), congr(z, h * ipow(omega(k + s), j as nat))
{
    let w = omega(k + s); let n = ipow(2, (k + s) as nat); let b = ipow(2, s as nat); lemma_ipow2_mono(0, s as nat); lemma_ipow2_mono(0, (k + s) as nat);
    lemma_omega_up(k, s as nat); lemma_ipow_congr(ipow(w, b as nat), omega(k), o as nat); lemma_ipow_mul(w, b as nat, o as nat);
    assert(b * o >= 0) by (nonlinear_arith) requires b >= 1, o >= 0; assert((b as nat) * (o as nat) == (b * o) as nat);
    lemma_omega_mod(k + s, b * o); let e = (b * o) % n;
    let (we, wc, wi) = (ipow(w, e as nat), ipow(w, (n - e) as nat), ipow(w, i as nat));
    // z w^e = h w^i
    lemma_congr_mul(z, z, ipow(omega(k), o as nat), we);
    assert(congr(h * wi, z * we));
    lemma_ipow_sum(w, e as nat, (n - e) as nat); lemma_omega_order(k + s); assert(e as nat + (n - e) as nat == n as nat);
    assert(congr(we * wc, 1));
    lemma_congr_mul(h * wi, z * we, wc, wc); lemma_congr_mul(z, z, we * wc, 1);
    assert((z * we) * wc == z * (we * wc)) by (nonlinear_arith); assert(z * 1 == z);
    assert((h * wi) * wc == h * (wi * wc)) by (nonlinear_arith);
    lemma_ipow_sum(w, i as nat, (n - e) as nat); assert(i as nat + (n - e) as nat == (i + n - e) as nat);
    lemma_omega_mod(k + s, i + n - e); let j = (i + n - e) % n;
    lemma_congr_mul(h, h, ipow(w, (i + n - e) as nat), ipow(w, j as nat));
    j
}
pub proof fn lemma_coset_nonzero(air: &VxAir, d: Domain) requires domain_of(d, air), is_pow2(air.s_trace_length()), air.s_trace_length() >= 2, is_pow2(air.s_options().blowup_factor as int),
        log2(air.s_trace_length()) + log2(air.s_options().blowup_factor as int) <= two_adicity(), !congr(air.s_options().coset_offset as int, 0)
    ensures forall|i: int| 0 <= i < d.lde_roots_of_unity_coset@.len() ==> !congr((#[trigger] d.lde_roots_of_unity_coset@[i])@, 0)
{
    let n = air.s_trace_length(); let b = air.s_options().blowup_factor as int; lemma_pow2_mul(n, b); lemma_log2_bound(n / 2); lemma_log2_bound(b);
    assert forall|i: int| 0 <= i < d.lde_roots_of_unity_coset@.len() implies !congr((#[trigger] d.lde_roots_of_unity_coset@[i])@, 0) by {
        lemma_omega_nonzero(log2(n * b), i as nat); lemma_nonzero_mul(air.s_options().coset_offset as int, ipow(omega(log2(n * b)), i as nat));
    }
}
pub proof fn lemma_deep_defined(air: &VxAir, d: Domain, c: Challenges, iota: int) requires domain_of(d, air), is_pow2(air.s_trace_length()), air.s_trace_length() >= 2, is_pow2(air.s_options().blowup_factor as int),
        log2(air.s_trace_length()) + log2(air.s_options().blowup_factor as int) <= two_adicity(), 0 <= iota < d.lde_roots_of_unity_coset@.len(),
        !in_domains(c.z@, d.lde_roots_of_unity_coset@, d.trace_roots_of_unity@), z2_outside(d, c)
    ensures deep_defined(air, d, c, iota)
{
    let n = air.s_trace_length(); let b = air.s_options().blowup_factor as int; let h = air.s_options().coset_offset as int; lemma_pow2_mul(n, b); lemma_log2_bound(n); lemma_log2_bound(n / 2); lemma_log2_bound(b); lemma_log2_bound(n * b);
    let k = log2(n); let s = log2(b); let xs = d.lde_roots_of_unity_coset@; let x = xs[iota]@; let offs = air.s_ctx().transition_offsets@;
    assert forall|i: int| 0 <= i < offs.len() implies !congr(x - c.z@ * ipow(omega(d.root_order as int), #[trigger] offs[i] as nat), 0) by {
        let o = offs[i] as int; let t = c.z@ * ipow(omega(k), o as nat);
        lemma_congr_sub_zero(x, t);
        if congr(x - t, 0) {
            assert(congr(h * ipow(omega(k + s), iota as nat), t));
            let j = lemma_shifted(c.z@, h, k, s, iota, o);
            assert(congr(xs[j]@, h * ipow(omega(k + s), j as nat)));
            assert(congr(c.z@, xs[j]@));
        }
    }
}
/// The assumption on the out-of-domain point: see z2_outside.
pub open spec fn squares_outside(air: &VxAir, p: StarkProof) -> bool { forall|d: Domain, c: Challenges| domain_of(d, air) && #[trigger] challenges_of(air, Seq::empty(), p, d, c) ==> z2_outside(d, c) }
/// verify's answer: the verdict on a proof of acceptable shape for the challenges that follow from its messages, and false on any other.
pub open spec fn verify_says(n: int, pi: PubInput, o: ProofOptions, p: StarkProof, ret: bool) -> bool {
    let air = VxAir::s_new(n, pi, o);
    if length_ok(n, o.blowup_factor as int) && shape_ok(&air, p) { exists|d: Domain, c: Challenges| domain_of(d, &air) && #[trigger] challenges_of(&air, Seq::empty(), p, d, c) && ret == verdict(&air, p, d, c) } else { !ret }
}
