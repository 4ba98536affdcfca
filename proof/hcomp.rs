// ---- prelude: the composition polynomial of an honest proof ------------------------------------------
/// The (canonical) values of the columns at x, x g^o1, ...
pub open spec fn frame_at(t: Seq<Polynomial<FE>>, x: int, g: int, offs: Seq<usize>) -> Seq<int> { Seq::new((offs.len() * t.len()) as nat, |k: int| peval(t[k % (t.len() as int)]@, x * ipow(g, offs[k / (t.len() as int)] as nat)) % P()) }
/// The composition value at x of these column polynomials.
pub open spec fn comp_at(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, x: int, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>) -> int {
    let g = omega(log2(air.s_trace_length())); comp_value(air, rap, frame_at(t, x, g, air.s_ctx().transition_offsets@), x, g, bc, tc)
}
pub open spec fn off_trace(air: &VxAir, x: int) -> bool { !congr(ipow(x, air.s_trace_length() as nat) - 1, 0) }
/// The composition values are those of polynomial q: the columns satisfy the AIR.
pub open spec fn composes(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>, q: Seq<int>) -> bool {
    forall|x: int| off_trace(air, x) ==> congr(#[trigger] peval(q, x), comp_at(air, rap, t, x, bc, tc))
}
pub proof fn lemma_grid(k: int, n: int, m: int) requires 0 <= k < m * n, n > 0 ensures 0 <= k / n < m, 0 <= k % n < n, k == (k / n) * n + k % n {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n); let (q, r) = (k / n, k % n);
    assert(q < m) by (nonlinear_arith) requires k == n * q + r, 0 <= r, k < m * n, n > 0;
    assert(q >= 0) by (nonlinear_arith) requires k == n * q + r, r < n, k >= 0, n > 0; assert(q * n == n * q) by (nonlinear_arith);
}
/// Boundary terms only read the columns they name.
pub proof fn lemma_bsum_row(cs: Seq<BoundaryConstraint>, a: Seq<int>, b: Seq<int>, x: int, g: int, adj: int, c: Seq<(FE, FE)>, m: int) requires forall|i: int| 0 <= i < m ==> a[(#[trigger] cs[i]).col as int] == b[cs[i].col as int] ensures bsum(cs, a, x, g, adj, c, m) == bsum(cs, b, x, g, adj, c, m) decreases m {
    if m > 0 { lemma_bsum_row(cs, a, b, x, g, adj, c, m - 1); assert(a[cs[m - 1].col as int] == b[cs[m - 1].col as int]); }
}
pub proof fn lemma_weight(a: (FE, FE), b: (FE, FE), w: int) requires congr(a.0@, b.0@), congr(a.1@, b.1@) ensures congr(a.0@ * w + a.1@, b.0@ * w + b.1@) { lemma_congr_mul(a.0@, b.0@, w, w); lemma_congr_add(a.0@ * w, b.0@ * w, a.1@, b.1@); }
pub proof fn lemma_bsum_same(cs: Seq<BoundaryConstraint>, r: Seq<int>, x: int, g: int, adj: int, c: Seq<(FE, FE)>, d: Seq<(FE, FE)>, m: int) requires same_pairs(c, d), m <= c.len() ensures congr(bsum(cs, r, x, g, adj, c, m), bsum(cs, r, x, g, adj, d, m)) decreases m {
    if m > 0 {
        lemma_bsum_same(cs, r, x, g, adj, c, d, m - 1); assert(congr(c[m - 1].0@, d[m - 1].0@) && congr(c[m - 1].1@, d[m - 1].1@)); let w = ipow(x, adj as nat); lemma_weight(c[m - 1], d[m - 1], w);
        let f = (r[cs[m - 1].col as int] - cs[m - 1].value@) * finv(x - ipow(g, cs[m - 1].step as nat)); let (u, v) = (c[m - 1].0@ * w + c[m - 1].1@, d[m - 1].0@ * w + d[m - 1].1@);
        lemma_congr_mul(f, f, u, v); lemma_congr_add(bsum(cs, r, x, g, adj, c, m - 1), bsum(cs, r, x, g, adj, d, m - 1), f * u, f * v);
    }
}
pub proof fn lemma_tsum_same(k: AirContext, ev: Seq<int>, x: int, g: int, n: int, bound: int, c: Seq<(FE, FE)>, d: Seq<(FE, FE)>, m: int) requires same_pairs(c, d), m <= c.len() ensures congr(tsum(k, ev, x, g, n, bound, c, m), tsum(k, ev, x, g, n, bound, d, m)) decreases m {
    if m > 0 {
        lemma_tsum_same(k, ev, x, g, n, bound, c, d, m - 1); assert(congr(c[m - 1].0@, d[m - 1].0@) && congr(c[m - 1].1@, d[m - 1].1@)); let w = ipow(x, adjust(bound, n, k.transition_degrees@[m - 1] as int)); lemma_weight(c[m - 1], d[m - 1], w);
        let f = finv(ipow(x, n as nat) - 1) * ev[m - 1]; let (u, v) = (c[m - 1].0@ * w + c[m - 1].1@, d[m - 1].0@ * w + d[m - 1].1@); let y = exempt(x, g, n, k.transition_exemptions@[m - 1] as int);
        lemma_congr_mul(f, f, u, v); lemma_congr_mul(f * u, f * v, y, y); lemma_congr_add(tsum(k, ev, x, g, n, bound, c, m - 1), tsum(k, ev, x, g, n, bound, d, m - 1), (f * u) * y, (f * v) * y);
    }
}
/// A step of b points on the extended domain is one step of the trace domain.
pub proof fn lemma_step(h: int, n: int, b: int, i: int, o: int) requires sizes_ok(n, b), i >= 0, o >= 0
    ensures ({ let w = omega(log2(n * b)); let r = mstep(i, o, b, n * b); 0 <= r < n * b && congr(h * ipow(w, r as nat), (h * ipow(w, i as nat)) * ipow(omega(log2(n)), o as nat)) })
{
    lemma_pow2_mul(n, b); lemma_log2_bound(n); lemma_log2_bound(b); lemma_log2_bound(n * b); lemma_log2_bound(n / 2); let (k, s) = (log2(n), log2(b)); let w = omega(k + s);
    assert(o * b >= 0) by (nonlinear_arith) requires o >= 0, b >= 0; lemma_omega_mod(k + s, i + o * b); let r = (i + o * b) % (n * b);
    lemma_ipow_sum(w, i as nat, (o * b) as nat); assert(i as nat + (o * b) as nat == (i + o * b) as nat); lemma_ipow_mul(w, b as nat, o as nat); assert((b as nat) * (o as nat) == (o * b) as nat) by { assert(b * o == o * b) by (nonlinear_arith); }
    lemma_omega_up(k, s as nat); lemma_ipow_congr(ipow(w, b as nat), omega(k), o as nat);
    let (wi, go) = (ipow(w, i as nat), ipow(omega(k), o as nat)); lemma_congr_mul(wi, wi, ipow(ipow(w, b as nat), o as nat), go);
    lemma_congr_mul(h, h, ipow(w, r as nat), wi * go); assert(h * (wi * go) == (h * wi) * go) by (nonlinear_arith);
}
/// The prover's table holds the composition values of its column polynomials.
pub proof fn lemma_eval_is_comp(air: &VxAir, rap: RAPChallenges, lde: TraceTable, t: Seq<Polynomial<FE>>, d: Domain, i: int, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>)
    requires lawful(air), domain_of(d, air), sizes_ok(air.s_trace_length(), air.s_options().blowup_factor as int), lde_of(lde, t, d.coset_offset@, size_of(d)), t.len() == air.s_ctx().trace_columns, air.s_ctx().transition_offsets@[0] == 0, 0 <= i < size_of(d)
    ensures eval_at(air, rap, lde, d, i, bc, tc) == comp_at(air, rap, t, d.lde_roots_of_unity_coset@[i]@, bc, tc)
{
    let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); let h = d.coset_offset@; let x = d.lde_roots_of_unity_coset@[i]@; let offs = air.s_ctx().transition_offsets@; let g = omega(log2(n)); let cols = t.len() as int; let size = n * b;
    let (fa, fs) = (frame_at(t, x, g, offs), frame_seq(lde, i, b, offs)); let y = h * ipow(omega(log2(size)), i as nat); assert(congr(x, y)); assert(size_of(d) == size);
    assert forall|k: int| 0 <= k < offs.len() * cols implies reps(fs)[k] == #[trigger] fa[k] by {
        lemma_grid(k, cols, offs.len() as int); let (q, c) = (k / cols, k % cols); let o = offs[q] as int; lemma_step(h, n, b, i, o); let r = mstep(i, o, b, size); let go = ipow(g, o as nat);
        let u = h * ipow(omega(log2(size)), r as nat);
        assert(congr(lde.cell(r, c)@, peval(t[c]@, u)));
        lemma_congr_mul(x, y, go, go); lemma_peval_x(t[c]@, u, x * go); assert(fs[k] == lde.cell(r, c));
    }
    assert(reps(fs) =~= fa);
    let cs = air.s_boundary(rap).constraints@; let row = reps(row_seq(lde, i));
    assert forall|j: int| 0 <= j < cs.len() implies row[(#[trigger] cs[j]).col as int] == fa[cs[j].col as int] by {
        let c = cs[j].col as int; assert(0 <= c < cols); assert(cols <= offs.len() * cols) by (nonlinear_arith) requires offs.len() >= 1, cols >= 0;
        vstd::arithmetic::div_mod::lemma_small_mod(c as nat, cols as nat); assert(c / cols == 0) by { vstd::arithmetic::div_mod::lemma_basic_div(c, cols); }
        assert(ipow(g, 0) == 1); assert(x * 1 == x); lemma_peval_x(t[c]@, x, y); assert(congr(lde.cell(i, c)@, peval(t[c]@, y)));
    }
    lemma_bsum_row(cs, row, fa, x, g, air.s_bound() - n, bc, cs.len() as int);
}
pub open spec fn lde_points(d: Domain) -> Seq<int> { Seq::new(size_of(d) as nat, |i: int| lde_point(d, i)) }
pub proof fn lemma_lde_distinct(air: &VxAir, d: Domain) requires provable(air, d) ensures distinct(lde_points(d)), lde_points(d).len() == size_of(d), size_of(d) >= 4 {
    let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); let h = d.coset_offset@; lemma_pow2_mul(n, b); lemma_log2_bound(n * b); lemma_log2_bound(n / 2); lemma_log2_bound(b); let p = lde_points(d);
    assert(n * b >= 4) by (nonlinear_arith) requires n >= 2, b >= 2;
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies !congr(#[trigger] p[i], #[trigger] p[j]) by {
        lemma_omega_distinct(log2(n * b), i, j); let (u, v) = (ipow(omega(log2(n * b)), i as nat), ipow(omega(log2(n * b)), j as nat)); if congr(h * u, h * v) { lemma_congr_cancel(h, u, v); }
    }
}
/// The polynomial the second round interpolates is the composition polynomial.
pub proof fn theorem_composition(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, q: Seq<int>)
    requires honest(air, main, p, h), composes(air, h.r1.rap_challenges, h.r1.trace_polys@, h.bc, h.tc, q), q.len() <= size_of(h.d), air.s_ctx().transition_offsets@[0] == 0
    ensures same_poly(woven(h.r2.composition_poly_even@, h.r2.composition_poly_odd@), q)
{
    let d = h.d; let (e, o) = (h.r2.composition_poly_even@, h.r2.composition_poly_odd@); let w = woven(e, o); let pts = lde_points(d); lemma_lde_distinct(air, d);
    let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); lemma_pow2_mul(n, b);
    assert(agree(w, q, pts)) by { assert forall|i: int| 0 <= i < pts.len() implies congr(peval(w, #[trigger] pts[i]), peval(q, pts[i])) by {
        let y = lde_point(d, i); let x = d.lde_roots_of_unity_coset@[i]@; assert(congr(x, y));
        lemma_woven(e, o, y); assert(congr(halves_at(e, o, y), eval_at(air, h.r1.rap_challenges, h.r1.lde_trace, d, i, h.bc, h.tc)));
        lemma_eval_is_comp(air, h.r1.rap_challenges, h.r1.lde_trace, h.r1.trace_polys@, d, i, h.bc, h.tc); lemma_coset_point(air, d, i, 0); assert(off_trace(air, x)); lemma_peval_x(q, x, y);
        assert(congr(peval(q, x), comp_at(air, h.r1.rap_challenges, h.r1.trace_polys@, x, h.bc, h.tc)));
    } }
    theorem_agree(w, q, pts);
}
/// The frame in the proof is the frame of the columns at the verifier's point.
pub proof fn lemma_ood_frame(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, z: int) requires honest(air, main, p, h), congr(z, h.z)
    ensures reps(p.trace_ood_frame_evaluations.data@) == frame_at(h.r1.trace_polys@, z, omega(log2(air.s_trace_length())), air.s_ctx().transition_offsets@), p.trace_ood_frame_evaluations.data@.len() == air.s_ctx().transition_offsets@.len() * air.s_ctx().trace_columns
{
    let t = h.r1.trace_polys@; let ev = h.r3.trace_ood_evaluations@; let offs = air.s_ctx().transition_offsets@; let g = h.d.trace_primitive_root@; let n = t.len() as int; let m = offs.len() as int; let f = p.trace_ood_frame_evaluations.data@;
    assert forall|k: int| 0 <= k < ev.len() implies (#[trigger] ev[k])@.len() == n by { let pk = peval(t[0]@, shifted(h.z, g, offs, k)); assert(ev[k]@.len() == n); }
    lemma_flat(ev, n, m); assert(m * n == offs.len() * t.len()); let fa = frame_at(t, z, g, offs);
    assert forall|k: int| 0 <= k < offs.len() * t.len() implies reps(f)[k] == #[trigger] fa[k] by {
        lemma_grid(k, n, m); let (q, c) = (k / n, k % n); assert(gcell(f, n, q, c) == ev[q]@[c]); let go = ipow(g, offs[q] as nat); lemma_congr_mul(z, h.z, go, go); lemma_peval_x(t[c]@, z * go, shifted(h.z, g, offs, q));
        let pq = peval(t[c]@, shifted(h.z, g, offs, q)); assert(congr(ev[q]@[c]@, pq));
    }
    assert(reps(f) =~= fa);
}
/// The second step of the verifier accepts.
pub proof fn theorem_composition_accepts(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, c: Challenges, q: Seq<int>)
    requires honest(air, main, p, h), same_challenges(air, p, h, c), composes(air, h.r1.rap_challenges, h.r1.trace_polys@, h.bc, h.tc, q), same_poly(woven(h.r2.composition_poly_even@, h.r2.composition_poly_odd@), q),
        off_trace(air, c.z@), steps_inside(air, h.r1.rap_challenges)
    ensures composition_accepts(air, p, c)
{
    let (e, o) = (h.r2.composition_poly_even@, h.r2.composition_poly_odd@); let z = c.z@; let t = h.r1.trace_polys@; let rap = h.r1.rap_challenges; let (n, g) = (air.s_trace_length(), omega(log2(air.s_trace_length()))); let cs = air.s_boundary(rap).constraints@;
    lemma_ood_frame(air, main, p, h, z); lemma_woven(e, o, z); lemma_peval_same(woven(e, o), q, z); assert(congr(peval(q, z), comp_at(air, rap, t, z, h.bc, h.tc)));
    let f = frame_at(t, z, g, air.s_ctx().transition_offsets@); let ev = air.s_transition(f, rap);
    lemma_bsum_same(cs, f, z, g, air.s_bound() - n, c.boundary_coeffs@, h.bc, cs.len() as int); lemma_tsum_same(air.s_ctx(), ev, z, g, n, air.s_bound(), c.transition_coeffs@, h.tc, n_transition(air));
    lemma_congr_add(bsum(cs, f, z, g, air.s_bound() - n, c.boundary_coeffs@, cs.len() as int), bsum(cs, f, z, g, air.s_bound() - n, h.bc, cs.len() as int), tsum(air.s_ctx(), ev, z, g, n, air.s_bound(), c.transition_coeffs@, n_transition(air)), tsum(air.s_ctx(), ev, z, g, n, air.s_bound(), h.tc, n_transition(air)));
    lemma_congr_mul(z, h.z, z, h.z); lemma_peval_x(e, z * z, h.z * h.z); lemma_peval_x(o, z * z, h.z * h.z);
    let (a, b) = (p.composition_poly_even_ood_evaluation@, p.composition_poly_odd_ood_evaluation@);
    lemma_congr_mul(z, z, b, peval(o, z * z)); lemma_congr_add(a, peval(e, z * z), z * b, z * peval(o, z * z));
}
