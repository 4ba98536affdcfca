// ---- prelude: the prover's table of the composition polynomial -----------------------------------
/// The exemption counts in use, each once, in the order of their first constraint.
pub open spec fn used(s: Seq<usize>, m: int) -> Seq<usize> decreases m { if m <= 0 { Seq::empty() } else { let u = used(s, m - 1); let e = s[m - 1]; if e > 0 && !u.contains(e) { u.push(e) } else { u } } }
pub proof fn lemma_used(s: Seq<usize>, m: int, e: usize) requires 0 <= m <= s.len() ensures used(s, m).contains(e) == (e > 0 && exists|j: int| 0 <= j < m && s[j] == e), used(s, m).len() <= m decreases m {
    if m > 0 {
        lemma_used(s, m - 1, e); lemma_used(s, m - 1, s[m - 1]);
        let u = used(s, m - 1); let v = used(s, m);
        if v.len() > u.len() { assert(v[u.len() as int] == s[m - 1]); if u.contains(e) { let j = choose|j: int| 0 <= j < u.len() && u[j] == e; assert(v[j] == e); } }
    }
}
/// v holds exactly the values of the first m.
pub open spec fn saw(v: Seq<&usize>, s: Seq<usize>, m: int, e: usize) -> bool { (exists|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == e) == (exists|j: int| 0 <= j < m && s[j] == e) }
pub proof fn lemma_saw(v: Seq<&usize>, w: Seq<&usize>, s: Seq<usize>, m: int) requires 0 <= m < s.len(), forall|e: usize| #[trigger] saw(v, s, m, e), w == v || w.len() == v.len() + 1 && w.drop_last() == v && *w.last() == s[m], w == v ==> exists|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == s[m]
    ensures forall|e: usize| #[trigger] saw(w, s, m + 1, e)
{
    assert forall|e: usize| #[trigger] saw(w, s, m + 1, e) by {
        assert(saw(v, s, m, e));
        if exists|j: int| 0 <= j < m && s[j] == e { let j = choose|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == e; assert(w.drop_last()[j] == w[j] || w == v); assert(*w[j] == e); let i = choose|j: int| 0 <= j < m && s[j] == e; assert(s[i] == e); }
        if e == s[m] { if w != v { assert(*w[v.len() as int] == e); } assert(s[m] == e); }
        if exists|j: int| 0 <= j < w.len() && *(#[trigger] w[j]) == e { let j = choose|j: int| 0 <= j < w.len() && *(#[trigger] w[j]) == e; if j < v.len() { assert(w == v || w.drop_last()[j] == w[j]); assert(*v[j] == e); } }
        if exists|j: int| 0 <= j < m + 1 && s[j] == e { let j = choose|j: int| 0 <= j < m + 1 && s[j] == e; if j < m { assert(s[j] == e); } }
    }
}
/// One row of a table.
pub open spec fn row_seq(t: TraceTable, i: int) -> Seq<FE> { Seq::new(t.n_cols as nat, |c: int| t.cell(i, c)) }
/// The frame the prover evaluates the transition constraints on at row i of the extended trace.
pub open spec fn frame_seq(t: TraceTable, i: int, b: int, offs: Seq<usize>) -> Seq<FE> {
    Seq::new((offs.len() * t.n_cols) as nat, |k: int| t.cell(mstep(i, offs[k / t.n_cols as int] as int, b, t.nr()), k % t.n_cols as int))
}
pub proof fn lemma_frame_seq(data: Seq<FE>, t: TraceTable, i: int, b: int, offs: Seq<usize>)
    requires t.n_cols > 0, data.len() == offs.len() * t.n_cols, forall|k: int, c: int| 0 <= k < offs.len() && 0 <= c < t.n_cols ==> #[trigger] gcell(data, t.n_cols as int, k, c) == t.cell(mstep(i, offs[k] as int, b, t.nr()), c)
    ensures data == frame_seq(t, i, b, offs)
{
    let n = t.n_cols as int;
    assert forall|k: int| 0 <= k < data.len() implies data[k] == #[trigger] frame_seq(t, i, b, offs)[k] by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n); let (q, r) = (k / n, k % n);
        assert(q < offs.len()) by (nonlinear_arith) requires k == n * q + r, 0 <= r, k < offs.len() * n, n > 0;
        assert(q >= 0) by (nonlinear_arith) requires k == n * q + r, r < n, k >= 0, n > 0;
        assert(q * n == n * q) by (nonlinear_arith);
        assert(gcell(data, n, q, r) == t.cell(mstep(i, offs[q] as int, b, t.nr()), r));
    }
    assert(data =~= frame_seq(t, i, b, offs));
}
/// The composition value at point i of the extended domain, from the extended trace.
pub open spec fn eval_at(air: &VxAir, rap: RAPChallenges, t: TraceTable, d: Domain, i: int, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>) -> int {
    let n = air.s_trace_length(); let cs = air.s_boundary(rap).constraints@; let x = d.lde_roots_of_unity_coset@[i]@;
    bsum(cs, reps(row_seq(t, i)), x, omega(log2(n)), air.s_bound() - n, bc, cs.len() as int)
    + tsum(air.s_ctx(), air.s_transition(reps(frame_seq(t, i, air.s_options().blowup_factor as int, air.s_ctx().transition_offsets@)), rap), x, omega(log2(n)), n, air.s_bound(), tc, n_transition(air))
}
/// The coset shares no point with the trace domain.
pub open spec fn coset_avoids(h: int, n: int, b: int) -> bool { forall|j: int| 0 <= j < b ==> !congr(#[trigger] zero_at(h, n, b, j), 0) }
/// x^n - 1 on the coset, which repeats every b points.
pub open spec fn zero_at(h: int, n: int, b: int, j: int) -> int { ipow(h, n as nat) * ipow(omega(log2(b)), j as nat) - 1 }
pub open spec fn sizes_ok(n: int, b: int) -> bool { is_pow2(n) && n >= 2 && is_pow2(b) && b >= 2 && log2(n) + log2(b) <= two_adicity() && n * b <= 0x1000_0000_0000_0000 }
/// What the prover relies on beyond `lawful`: exemptions below the trace length and counted, offsets inside the trace, degrees within the composition bound.
pub open spec fn prover_law(air: &VxAir) -> bool {
    let c = air.s_ctx(); let n = air.s_trace_length();
    &&& forall|i: int| 0 <= i < c.transition_exemptions@.len() ==> (#[trigger] c.transition_exemptions@[i]) < n
    &&& forall|i: int| 0 <= i < c.transition_offsets@.len() ==> (#[trigger] c.transition_offsets@[i]) <= n
    &&& c.num_transition_constraints < usize::MAX
    &&& (c.num_transition_exemptions == 1 ==> used(c.transition_exemptions@, c.transition_exemptions@.len() as int).len() <= 1)
}
pub proof fn lemma_ipow_prod(a: int, b: int, n: nat) ensures ipow(a * b, n) == ipow(a, n) * ipow(b, n) decreases n {
    if n > 0 { lemma_ipow_prod(a, b, (n - 1) as nat); let (p, q) = (ipow(a, (n - 1) as nat), ipow(b, (n - 1) as nat)); assert((a * b) * (p * q) == (a * p) * (b * q)) by (nonlinear_arith); } else { assert(1 * 1 == 1); }
}
/// Points of the coset: x^n - 1 and x - g^s are not zero there, and x^n - 1 repeats.
pub proof fn lemma_coset_point(air: &VxAir, d: Domain, i: int, s: int)
    requires domain_of(d, air), sizes_ok(air.s_trace_length(), air.s_options().blowup_factor as int), coset_avoids(air.s_options().coset_offset as int, air.s_trace_length(), air.s_options().blowup_factor as int),
        0 <= i < d.lde_roots_of_unity_coset@.len(), s >= 0
    ensures ({ let n = air.s_trace_length(); let b = air.s_options().blowup_factor as int; let x = d.lde_roots_of_unity_coset@[i]@;
        0 <= i % b < b && congr(ipow(x, n as nat) - 1, zero_at(air.s_options().coset_offset as int, n, b, i % b)) && !congr(ipow(x, n as nat) - 1, 0) && !congr(x - ipow(omega(log2(n)), s as nat), 0) })
{
    let n = air.s_trace_length(); let b = air.s_options().blowup_factor as int; let x = d.lde_roots_of_unity_coset@[i]@; let h = air.s_options().coset_offset as int; let g = omega(log2(n));
    lemma_pow2_mul(n, b); lemma_log2_bound(n); lemma_log2_bound(b); lemma_log2_bound(n / 2); lemma_log2_bound(b / 2);
    let (k, m) = (log2(n), log2(b)); let w = omega(k + m);
    let wi = ipow(w, i as nat);
    assert(congr(x, h * wi));
    lemma_ipow_congr(x, h * wi, n as nat); lemma_ipow_prod(h, wi, n as nat);
    // (w^i)^n = (w^n)^i
    lemma_ipow_mul(w, i as nat, n as nat); lemma_ipow_mul(w, n as nat, i as nat); assert((i as nat) * (n as nat) == (n as nat) * (i as nat)) by (nonlinear_arith);
    lemma_omega_up(m, k as nat); lemma_ipow_congr(ipow(w, n as nat), omega(m), i as nat);
    lemma_omega_mod(m, i);
    let v = ipow(omega(m), (i % b) as nat);
    assert(congr(ipow(wi, n as nat), v));
    lemma_congr_mul(ipow(h, n as nat), ipow(h, n as nat), ipow(wi, n as nat), v);
    lemma_congr_add(ipow(x, n as nat), ipow(h, n as nat) * v, 1, 1);
    assert(!congr(zero_at(h, n, b, i % b), 0));
    // g^s is an n-th root
    lemma_omega_order(k); lemma_ipow_mul(g, s as nat, n as nat); lemma_ipow_mul(g, n as nat, s as nat); assert((s as nat) * (n as nat) == (n as nat) * (s as nat)) by (nonlinear_arith);
    lemma_ipow_congr(ipow(g, n as nat), 1, s as nat); lemma_ipow_one(s as nat);
    let y = ipow(g, s as nat); lemma_congr_sub_zero(x, y);
    if congr(x - y, 0) { lemma_ipow_congr(x, y, n as nat); lemma_congr_sub_zero(ipow(x, n as nat), 1); assert(false); }
}
/// The inverses of the boundary divisors, constraint by constraint.
pub open spec fn binv(v: Seq<Vec<FE>>, cs: Seq<BoundaryConstraint>, xs: Seq<FE>, g: int, m: int) -> bool {
    v.len() == m && (forall|c: int| 0 <= c < m ==> (#[trigger] v[c])@.len() == xs.len())
    && forall|c: int, i: int| 0 <= c < m && 0 <= i < xs.len() ==> congr((#[trigger] v[c]@[i])@, finv(xs[i]@ - ipow(g, cs[c].step as nat)))
}
/// Column minus required value, constraint by constraint.
pub open spec fn bnum(v: Seq<Vec<FE>>, cs: Seq<BoundaryConstraint>, t: TraceTable, len: int, m: int) -> bool {
    v.len() == m && (forall|c: int| 0 <= c < m ==> (#[trigger] v[c])@.len() == len)
    && forall|c: int, i: int| 0 <= c < m && 0 <= i < len ==> (#[trigger] v[c]@[i])@ == t.cell(i, cs[c].col as int)@ - cs[c].value@
}
/// Powers that raise a constraint of degree 1..m to the common degree.
pub open spec fn dadj(v: Seq<Vec<FE>>, xs: Seq<FE>, bound: int, n: int, m: int) -> bool {
    v.len() == m && (forall|k: int| 0 <= k < m ==> (#[trigger] v[k])@.len() == xs.len())
    && forall|k: int, i: int| 0 <= k < m && 0 <= i < xs.len() ==> (#[trigger] v[k]@[i])@ == ipow(xs[i]@, adjust(bound, n, k + 1))
}
/// The exempted rows' products on the extended domain.
pub open spec fn exev(v: Seq<Vec<FE>>, xs: Seq<FE>, g: int, n: int, u: Seq<usize>) -> bool {
    v.len() == u.len() && (forall|k: int| 0 <= k < u.len() ==> (#[trigger] v[k])@.len() == xs.len())
    && forall|k: int, i: int| 0 <= k < u.len() && 0 <= i < xs.len() ==> congr((#[trigger] v[k]@[i])@, exempt(xs[i]@, g, n, u[k] as int))
}
pub proof fn lemma_exempt_x(x: int, y: int, g: int, n: int, e: int) requires congr(x, y) ensures congr(exempt(x, g, n, e), exempt(y, g, n, e)) decreases e {
    if e > 0 { lemma_exempt_x(x, y, g, n, e - 1); let r = ipow(g, (n - e) as nat); lemma_congr_add(x, y, r, r); lemma_congr_mul(exempt(x, g, n, e - 1), exempt(y, g, n, e - 1), x - r, y - r); }
}
pub proof fn lemma_bterm2(s: int, t: int, z: int, f: int, w: int, num: int, v: int) requires congr(s, t), congr(z, f), congr(num, v) ensures congr(s + z * w * num, t + (v * f) * w) {
    lemma_congr_mul(z, f, w, w); lemma_congr_mul(z * w, f * w, num, v); lemma_congr_add(s, t, z * w * num, (f * w) * v); assert((f * w) * v == (v * f) * w) by (nonlinear_arith);
}
pub proof fn lemma_tterm2(s: int, t: int, z: int, f: int, w: int, ev: int, e: int, ex: int, y: int) requires congr(s, t), congr(z, f), congr(ev, e), congr(ex, y)
    ensures congr(s + z * w * ev * ex, t + ((f * e) * w) * y), y == 1 ==> congr(s + z * w * ev, t + ((f * e) * w) * y) {
    lemma_congr_mul(z, f, w, w); lemma_congr_mul(z * w, f * w, ev, e); lemma_congr_mul(z * w * ev, f * w * e, ex, y); assert((f * w) * e == (f * e) * w) by (nonlinear_arith);
    lemma_congr_add(s, t, z * w * ev * ex, ((f * e) * w) * y); lemma_congr_add(s, t, z * w * ev, (f * e) * w);
}
