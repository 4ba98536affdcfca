// ---- prelude: an honest proof is accepted --------------------------------------------------------------
/// What is assumed of a run that is proved: its columns satisfy the AIR (q is their composition polynomial), in an AIR whose steps and offsets make sense.
pub open spec fn satisfied(air: &VxAir, main: TraceTable, h: Honest, q: Seq<int>) -> bool {
    let n = air.s_trace_length();
    &&& main.nr() == n && composes(air, h.r1.rap_challenges, h.r1.trace_polys@, h.bc, h.tc, q) && q.len() <= 2 * n + 1 && q.len() <= size_of(h.d)
    &&& air.s_ctx().transition_offsets@[0] == 0 && steps_inside(air, h.r1.rap_challenges)
}
pub proof fn lemma_sizes(air: &VxAir, d: Domain) requires provable(air, d) ensures ({ let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); size_of(d) == n * b && is_pow2(n * b) && log2(n * b) == log2(n) + log2(b) && 2 * n <= n * b && n >= 2 && log2(n) >= 1 && log2(b) >= 1 && log2(n * b) <= two_adicity() && n * b == ipow(2, log2(n * b) as nat) && n == ipow(2, log2(n) as nat) }) {
    let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); lemma_pow2_mul(n, b); lemma_log2_bound(n * b); lemma_log2_bound(n); lemma_log2_nonneg(n / 2); lemma_log2_nonneg(b / 2);
    assert(2 * n <= n * b) by (nonlinear_arith) requires n >= 2, b >= 2;
}
pub proof fn lemma_regular_same(x: int, y: int, z: int, v: int, g: int, offs: Seq<usize>) requires congr(x, y), congr(z, v), regular(x, z, g, offs) ensures regular(y, v, g, offs) {
    lemma_congr_mul(z, v, z, v); lemma_congr_add(x, y, z * z, v * v);
    assert forall|k: int| 0 <= k < offs.len() implies !congr(y - #[trigger] shifted(v, g, offs, k), 0) by { let w = ipow(g, offs[k] as nat); lemma_congr_mul(z, v, w, w); lemma_congr_add(x, y, z * w, v * w); assert(!congr(x - shifted(z, g, offs, k), 0)); }
}
/// No point of the extended domain is one something was claimed at.
pub proof fn lemma_points_regular(air: &VxAir, h: Honest, d: Domain, c: Challenges, i: int)
    requires provable(air, h.d), domain_of(d, air), !in_domains(c.z@, d.lde_roots_of_unity_coset@, d.trace_roots_of_unity@), z2_outside(d, c), congr(c.z@, h.z), 0 <= i < size_of(h.d)
    ensures regular(d.lde_roots_of_unity_coset@[i]@, h.z, h.d.trace_primitive_root@, air.s_ctx().transition_offsets@), regular(lde_point(h.d, i), h.z, h.d.trace_primitive_root@, air.s_ctx().transition_offsets@), congr(d.lde_roots_of_unity_coset@[i]@, lde_point(h.d, i))
{
    lemma_sizes(air, h.d); lemma_deep_defined(air, d, c, i); let x = d.lde_roots_of_unity_coset@[i]@; let g = h.d.trace_primitive_root@; let offs = air.s_ctx().transition_offsets@;
    assert(g == omega(d.root_order as int)); assert(regular(x, c.z@, g, offs)) by { assert forall|k: int| 0 <= k < offs.len() implies !congr(x - #[trigger] shifted(c.z@, g, offs, k), 0) by { assert(!congr(x - c.z@ * ipow(omega(d.root_order as int), offs[k] as nat), 0)); } }
    lemma_regular_same(x, x, c.z@, h.z, g, offs); lemma_regular_same(x, lde_point(h.d, i), c.z@, h.z, g, offs);
}
pub proof fn lemma_poly_lens(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, l: int) requires honest(air, main, p, h), main.nr() <= l ensures forall|i: int| 0 <= i < h.r1.trace_polys@.len() ==> (#[trigger] h.r1.trace_polys@[i])@.len() <= l {
    let t = h.r1.trace_polys@; let (m, k) = (main.n_cols as int, air.s_naux());
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i])@.len() <= l by { if i < m { assert(t.subrange(0, m)[i] == t[i]); } else { assert(t.subrange(m, m + k)[i - m] == t[i]); } }
}
/// The DEEP polynomial has fewer coefficients than the trace has rows.
pub proof fn lemma_honest_low(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, d: Domain, c: Challenges, q: Seq<int>)
    requires honest(air, main, p, h), satisfied(air, main, h, q), domain_of(d, air), !in_domains(c.z@, d.lde_roots_of_unity_coset@, d.trace_roots_of_unity@), z2_outside(d, c), congr(c.z@, h.z), same_poly(woven(h.r2.composition_poly_even@, h.r2.composition_poly_odd@), q)
    ensures low(h.w.p, air.s_trace_length())
{
    let n = air.s_trace_length(); let (e, o) = (h.r2.composition_poly_even@, h.r2.composition_poly_odd@); let t = h.r1.trace_polys@; let offs = air.s_ctx().transition_offsets@; let pts = lde_points(h.d); let size = size_of(h.d);
    lemma_sizes(air, h.d); lemma_lde_distinct(air, h.d); lemma_unweave(q, e, o); lemma_poly_lens(air, main, p, h, n);
    assert(lens_within(t, e, o, size)); assert(h.w.p.len() <= size - 1);
    assert forall|i: int| 0 <= i < pts.len() implies regular(#[trigger] pts[i], h.z, h.d.trace_primitive_root@, offs) by { lemma_points_regular(air, h, d, c, i); }
    theorem_deep_low(h.w.p, t, evens(q), odds(q), h.r2, h.r3, offs, h.z, h.d.trace_primitive_root@, h.w.ge, h.w.go, h.w.gam, pts, n + 1);
}
/// What folding leaves is the constant sent.
pub proof fn lemma_honest_last(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, x: int) requires honest(air, main, p, h), low(h.w.p, air.s_trace_length())
    ensures congr(peval(layer_poly(h.w.p, r4_fri(air, after_claims(air, p, h)), root_list(h.w.l), h.w.l.len() as int), x), p.fri_last_value@)
{
    let n = air.s_trace_length(); let log = r4_fri(air, after_claims(air, p, h)); lemma_sizes(air, h.d); lemma_halved(n, log2(n)); lemma_layer_low(h.w.p, log, root_list(h.w.l), n, log2(n)); lemma_log2_bound(halved(n, log2(n)));
    assert(halved(n, log2(n)) == 1) by { assert(ipow(2, 0) == 1); } lemma_low_one(layer_poly(h.w.p, log, root_list(h.w.l), log2(n)), x);
}
/// Position s: both the FRI query and the opening pass, and have the right shape.
pub proof fn lemma_honest_position(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, d: Domain, c: Challenges, s: int)
    requires honest(air, main, p, h), domain_of(d, air), same_challenges(air, p, h, c), !in_domains(c.z@, d.lde_roots_of_unity_coset@, d.trace_roots_of_unity@), z2_outside(d, c), low(h.w.p, air.s_trace_length()), 0 <= s < h.w.iotas.len()
    ensures one_query(p, d, c, s), opening_accepts(air, p, d, c, s)
{
    let i = h.w.iotas[s] as int; let size = size_of(h.d); let hh = air.s_options().coset_offset as int; let log = r4_fri(air, after_claims(air, p, h)); let q = p.query_list@[s]; let x = d.lde_roots_of_unity_coset@[i]@; lemma_sizes(air, h.d);
    lemma_honest_index(air, main, p, h, s);
    lemma_points_regular(air, h, d, c, i); let y = layer_point(hh, size, i, 0); assert(y == lde_point(h.d, i));
    assert(!congr(x, 0)) by { lemma_coset_nonzero(air, d); }
    let inv = finv(x); lemma_inverse(x); lemma_congr_mul(x, y, inv, inv); 
    assert forall|v: int| congr(#[trigger] peval(layer_poly(h.w.p, log, root_list(h.w.l), h.w.l.len() as int), v), p.fri_last_value@) by { lemma_honest_last(air, main, p, h, v); }
    theorem_query(p, q, c.zetas@, h.w.l, h.w.p, log, hh, size, i, inv);
    lemma_deep_opened(air, main, p, h, d, c, s); lemma_authentic(air, main, p, h, s, i);
    assert(layers_ok(h.w.l, 0, h.w.p, log, hh, size) && query_layer(q, h.w.l, i, 0)); lemma_shows(q, h.w.l, h.w.p, log, hh, size, i, 0); lemma_peval_x(h.w.p, y, x);
}
/// A proof made as the protocol prescribes, of a run that satisfies its AIR, has the expected shape and passes every check.
pub proof fn lemma_honest_accepted(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, d: Domain, c: Challenges, q: Seq<int>)
    requires honest(air, main, p, h), satisfied(air, main, h, q), domain_of(d, air), challenges_of(air, Seq::empty(), p, d, c), z2_outside(d, c)
    ensures shape_ok(air, p), verdict(air, p, d, c)
{
    theorem_same_challenges(air, main, p, h, d, c); lemma_sizes(air, h.d); let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int);
    theorem_composition(air, main, p, h, q); lemma_honest_low(air, main, p, h, d, c, q);
    assert(off_trace(air, c.z@)) by {
        let k = log2(n); assert forall|i: int| !is_root(c.z@, k, i) by { if is_root(c.z@, k, i) { assert(congr(d.trace_roots_of_unity@[i]@, ipow(omega(k), i as nat))); assert(congr(c.z@, d.trace_roots_of_unity@[i]@)); } }
        lemma_zerofier_nonzero(c.z@, k);
    }
    theorem_composition_accepts(air, main, p, h, c, q);
    assert forall|s: int| 0 <= s < h.w.iotas.len() implies #[trigger] one_query(p, d, c, s) by { lemma_honest_position(air, main, p, h, d, c, s); }
    assert forall|s: int| 0 <= s < h.w.iotas.len() implies #[trigger] opening_accepts(air, p, d, c, s) by { lemma_honest_position(air, main, p, h, d, c, s); }
    lemma_honest_shape(air, main, p, h);
}
pub proof fn lemma_honest_index(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, s: int) requires honest(air, main, p, h), 0 <= s < h.w.iotas.len()
    ensures 0 <= h.w.iotas[s] < size_of(h.d), query_holds(p.query_list@[s], h.w.l, h.w.iotas[s] as int), opens_row(p.deep_poly_openings@[s], h.r1, h.r2, h.w.iotas[s] as int)
{
    let i = h.w.iotas[s] as int; let size = size_of(h.d); lemma_sizes(air, h.d); let lq = r4_query(air, after_claims(air, p, h), h.w.l, h.r4);
    assert(h.w.iotas[s] == index_of(digest(samples(lq, s))) % size); vstd::arithmetic::div_mod::lemma_mod_bound(index_of(digest(samples(lq, s))), size);
    assert(query_holds(h.r4.query_list@[s], h.w.l, i)); assert(opens_row(h.r4.deep_poly_openings@[s], h.r1, h.r2, i));
}
pub proof fn lemma_honest_shape(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest) requires honest(air, main, p, h) ensures shape_ok(air, p) {
    let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); let log = r4_fri(air, after_claims(air, p, h)); let size = size_of(h.d);
    lemma_sizes(air, h.d); lemma_tz_log2(n); lemma_tz_log2(b); lemma_ood_frame(air, main, p, h, h.z); assert(hashes(p.fri_layers_merkle_roots@).len() == root_list(h.w.l).len());
    let roots = if air.s_naux() > 0 { 2int } else { 1int }; let len = log2(n) + log2(b);
    assert forall|s: int| 0 <= s < p.query_list@.len() implies query_ok(#[trigger] p.query_list@[s], log2(n), len) by { lemma_honest_index(air, main, p, h, s); lemma_query_shape(p.query_list@[s], h.w.l, h.w.p, log, air.s_options().coset_offset as int, size, h.w.iotas[s] as int); }
    assert forall|s: int| 0 <= s < p.deep_poly_openings@.len() implies opening_shape(#[trigger] p.deep_poly_openings@[s], roots, len, air.s_ctx().trace_columns as int) by { lemma_honest_index(air, main, p, h, s); lemma_authentic(air, main, p, h, s, h.w.iotas[s] as int); }
}
