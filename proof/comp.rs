// ---- prelude: the value of the composition polynomial ---------------------------------------------
/// Sum of the boundary quotients at x: (column - value) / (x - g^step), weighted by alpha x^adj + beta.
pub open spec fn bsum(cs: Seq<BoundaryConstraint>, row: Seq<int>, x: int, g: int, adj: int, c: Seq<(FE, FE)>, m: int) -> int decreases m {
    if m <= 0 { 0 } else { bsum(cs, row, x, g, adj, c, m - 1) + ((row[cs[m - 1].col as int] - cs[m - 1].value@) * finv(x - ipow(g, cs[m - 1].step as nat))) * (c[m - 1].0@ * ipow(x, adj as nat) + c[m - 1].1@) }
}
/// Product over the last e rows of x - (point of the row).
pub open spec fn exempt(x: int, g: int, n: int, e: int) -> int decreases e { if e <= 0 { 1 } else { exempt(x, g, n, e - 1) * (x - ipow(g, (n - e) as nat)) } }
/// The power a constraint of this degree is raised by.
pub open spec fn adjust(bound: int, n: int, degree: int) -> nat { (bound - n * (degree - 1)) as nat }
/// Sum of the transition quotients at x: evaluation times the exempted rows' product over x^n - 1, weighted.
pub open spec fn tsum(k: AirContext, ev: Seq<int>, x: int, g: int, n: int, bound: int, c: Seq<(FE, FE)>, m: int) -> int decreases m {
    if m <= 0 { 0 } else { tsum(k, ev, x, g, n, bound, c, m - 1)
        + ((finv(ipow(x, n as nat) - 1) * ev[m - 1]) * (c[m - 1].0@ * ipow(x, adjust(bound, n, k.transition_degrees@[m - 1] as int)) + c[m - 1].1@)) * exempt(x, g, n, k.transition_exemptions@[m - 1] as int) }
}
/// Composition value at x from a frame's (canonical) values there.
pub open spec fn comp_value(air: &VxAir, rap: RAPChallenges, frame: Seq<int>, x: int, g: int, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>) -> int {
    let n = air.s_trace_length(); let cs = air.s_boundary(rap).constraints@;
    bsum(cs, frame, x, g, air.s_bound() - n, bc, cs.len() as int) + tsum(air.s_ctx(), air.s_transition(frame, rap), x, g, n, air.s_bound(), tc, n_transition(air))
}
pub open spec fn steps_inside(air: &VxAir, rap: RAPChallenges) -> bool { forall|i: int| 0 <= i < air.s_boundary(rap).constraints@.len() ==> (#[trigger] air.s_boundary(rap).constraints@[i]).step < air.s_trace_length() }
/// One more boundary term.
pub proof fn lemma_bterm(s: int, t: int, num: int, v: int, den: int, f: int, w: int) requires congr(s, t), congr(num, v), congr(den, f) ensures congr(s + num * den * w, t + (v * f) * w) {
    lemma_congr_mul(num, v, den, f); lemma_congr_mul(num * den, v * f, w, w); lemma_congr_add(s, t, num * den * w, (v * f) * w);
}
pub proof fn lemma_tterm(s: int, t: int, den: int, f: int, ev: int, e: int, w: int, ex: int, y: int) requires congr(s, t), congr(den, f), congr(ev, e), congr(ex, y) ensures congr(s + den * ev * w * ex, t + ((f * e) * w) * y) {
    lemma_congr_mul(den, f, ev, e); lemma_congr_mul(den * ev, f * e, w, w); lemma_congr_mul(den * ev * w, (f * e) * w, ex, y); lemma_congr_add(s, t, den * ev * w * ex, ((f * e) * w) * y);
}
/// Product over j = 1..e of x - root^j.
pub open spec fn exempt_powers(root: int, e: int, x: int) -> int decreases e { if e <= 0 { 1 } else { exempt_powers(root, e - 1, x) * (x - ipow(root, e as nat)) } }
pub proof fn lemma_exempt(k: int, n: int, root: int, e: int, x: int) requires 1 <= k <= two_adicity(), n == ipow(2, k as nat), 0 <= e <= n, congr(root, ipow(omega(k), (n - 1) as nat)) ensures congr(exempt_powers(root, e, x), exempt(x, omega(k), n, e)) decreases e {
    if e > 0 {
        lemma_exempt(k, n, root, e - 1, x); lemma_omega_back(k, n, root, e);
        let (a, b) = (ipow(root, e as nat), ipow(omega(k), (n - e) as nat));
        lemma_congr_add(x, x, a, b); lemma_congr_mul(exempt_powers(root, e - 1, x), exempt(x, omega(k), n, e - 1), x - a, x - b);
    }
}
