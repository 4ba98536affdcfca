// ---- prelude: a trace whose rows satisfy the AIR -------------------------------------------------------
/// Column c of row r of the trace: the main table's columns first, then those of the auxiliary table.
pub open spec fn trace_cell(air: &VxAir, rap: RAPChallenges, main: TraceTable, r: int, c: int) -> int { (if c < main.n_cols { main.cell(r, c) } else { air.s_aux(main, rap).cell(r, c - main.n_cols) })@ }
/// The rows a frame at row r shows, wrapping round at the end.
pub open spec fn row_frame(air: &VxAir, rap: RAPChallenges, main: TraceTable, r: int) -> Seq<int> {
    let offs = air.s_ctx().transition_offsets@; let w = air.s_ctx().trace_columns as int;
    Seq::new((offs.len() * w) as nat, |k: int| trace_cell(air, rap, main, (r + offs[k / w]) % air.s_trace_length(), k % w) % P())
}
/// Transition constraint i is 0 at every row it applies to.
pub open spec fn transition_holds(air: &VxAir, rap: RAPChallenges, main: TraceTable, i: int) -> bool { forall|r: int| 0 <= r < air.s_trace_length() - exm_of(air, i) ==> congr(air.s_transition(#[trigger] row_frame(air, rap, main, r), rap)[i], 0) }
pub open spec fn cell_is(air: &VxAir, rap: RAPChallenges, main: TraceTable, j: int) -> bool { let c = air.s_boundary(rap).constraints@[j]; congr(trace_cell(air, rap, main, c.step as int, c.col as int), c.value@) }
/// The trace satisfies the AIR: every transition constraint on its rows, every boundary constraint in its cell.
pub open spec fn trace_satisfies(air: &VxAir, rap: RAPChallenges, main: TraceTable) -> bool {
    &&& main.nr() == air.s_trace_length()
    &&& forall|i: int| 0 <= i < n_transition(air) ==> #[trigger] transition_holds(air, rap, main, i)
    &&& forall|j: int| 0 <= j < air.s_boundary(rap).constraints@.len() ==> #[trigger] cell_is(air, rap, main, j)
}
/// What is assumed of the AIR itself: its constraints are polynomials of the declared degrees, none needs more room than the composition polynomial has, frames start at the row itself, boundary steps are rows.
pub open spec fn degrees_right(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>) -> bool { forall|i: int| 0 <= i < n_transition(air) ==> #[trigger] has_poly(air, rap, t, i) }
pub open spec fn air_law(air: &VxAir, rap: RAPChallenges, l: int) -> bool {
    &&& forall|t: Seq<Polynomial<FE>>| t.len() == air.s_ctx().trace_columns && columns_within(t, air.s_trace_length()) ==> #[trigger] degrees_right(air, rap, t)
    &&& within(air, l) && air.s_ctx().transition_offsets@[0] == 0 && steps_inside(air, rap)
}
/// Points wrap round with the rows.
proof fn lemma_point_wraps(k: int, r: int, o: int) requires 1 <= k <= two_adicity(), r >= 0, o >= 0 ensures ({ let n = ipow(2, k as nat); congr(ipow(omega(k), r as nat) * ipow(omega(k), o as nat), ipow(omega(k), ((r + o) % n) as nat)) && 0 <= (r + o) % n < n }) {
    let n = ipow(2, k as nat); lemma_ipow2_mono(0, k as nat); let g = omega(k); let s = r + o; let (q, m) = (s / n, s % n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, n); vstd::arithmetic::div_mod::lemma_mod_bound(s, n);
    assert(q >= 0) by (nonlinear_arith) requires s == n * q + m, 0 <= m < n, s >= 0, n > 0; assert(n * q >= 0) by (nonlinear_arith) requires n > 0, q >= 0;
    lemma_ipow_sum(g, r as nat, o as nat); assert(r as nat + o as nat == s as nat); lemma_ipow_sum(g, (n * q) as nat, m as nat); assert((n * q) as nat + m as nat == s as nat);
    lemma_ipow_mul(g, n as nat, q as nat); assert((n as nat) * (q as nat) == (n * q) as nat) by (nonlinear_arith) requires n >= 0, q >= 0, n * q >= 0; lemma_omega_order(k); lemma_ipow_congr(ipow(g, n as nat), 1, q as nat); lemma_ipow_one(q as nat);
    let (u, v) = (ipow(g, (n * q) as nat), ipow(g, m as nat)); lemma_congr_mul(u, 1, v, v); assert(1 * v == v);
}
/// A column takes the trace's values at the row points.
proof fn lemma_column(air: &VxAir, rap: RAPChallenges, main: TraceTable, d: Domain, log: Seq<Ev>, r1: Round1, r: int, c: int)
    requires round1_ok(air, main, d, log, r1), rap == r1.rap_challenges, length_law(air), main.nr() == air.s_trace_length(), 0 <= r < air.s_trace_length(), 0 <= c < r1.trace_polys@.len(), air.s_naux() >= 0
    ensures congr(peval(r1.trace_polys@[c]@, row_point(omega(log2(air.s_trace_length())), r)), trace_cell(air, rap, main, r, c))
{
    let p = r1.trace_polys@; let (m, k) = (main.n_cols as int, air.s_naux()); let aux = air.s_aux(main, rap);
    if c < m { let s = p.subrange(0, m); assert(s[c] == p[c]); assert(interpolates(s[c]@, &main, c)); assert(congr(peval(s[c]@, ipow(omega(log2(main.nr())), r as nat)), main.cell(r, c)@)); }
    else { let s = p.subrange(m, m + k); let e = c - m; assert(s[e] == p[c]); assert(interpolates(s[e]@, &aux, e)); assert(congr(peval(s[e]@, ipow(omega(log2(aux.nr())), r as nat)), aux.cell(r, e)@)); }
}
/// At a row's point the frame of the columns is the frame of the rows.
proof fn lemma_frame_rows(air: &VxAir, rap: RAPChallenges, main: TraceTable, d: Domain, log: Seq<Ev>, r1: Round1, r: int)
    requires round1_ok(air, main, d, log, r1), rap == r1.rap_challenges, lawful(air), length_law(air), main.nr() == air.s_trace_length(), 0 <= r < air.s_trace_length(), r1.trace_polys@.len() == air.s_ctx().trace_columns
    ensures frame_at(r1.trace_polys@, row_point(omega(log2(air.s_trace_length())), r), omega(log2(air.s_trace_length())), air.s_ctx().transition_offsets@) == row_frame(air, rap, main, r)
{
    let t = r1.trace_polys@; let n = air.s_trace_length(); let k0 = log2(n); let g = omega(k0); let offs = air.s_ctx().transition_offsets@; let w = t.len() as int; let x = row_point(g, r); let f = frame_at(t, x, g, offs); let h = row_frame(air, rap, main, r);
    assert forall|k: int| 0 <= k < f.len() implies #[trigger] f[k] == h[k] by {
        lemma_grid(k, w, offs.len() as int); let (o, c) = (offs[k / w] as int, k % w); lemma_point_wraps(k0, r, o); let y = row_point(g, (r + o) % n); lemma_column(air, rap, main, d, log, r1, (r + o) % n, c);
        lemma_peval_x(t[c]@, x * ipow(g, o as nat), y);
    }
    assert(f =~= h);
}
/// A trace that satisfies the AIR row by row has columns that satisfy it as polynomials.
proof fn lemma_columns_satisfy(air: &VxAir, rap: RAPChallenges, main: TraceTable, d: Domain, log: Seq<Ev>, r1: Round1, l: int)
    requires round1_ok(air, main, d, log, r1), rap == r1.rap_challenges, lawful(air), length_law(air), r1.trace_polys@.len() == air.s_ctx().trace_columns, trace_satisfies(air, rap, main), air_law(air, rap, l), columns_within(r1.trace_polys@, air.s_trace_length())
    ensures satisfies(air, rap, r1.trace_polys@)
{
    let t = r1.trace_polys@; let n = air.s_trace_length(); let g = omega(log2(n)); assert(degrees_right(air, rap, t));
    assert forall|i: int| 0 <= i < n_transition(air) implies #[trigger] holds_on_rows(air, rap, t, i) && has_poly(air, rap, t, i) by {
        assert(transition_holds(air, rap, main, i));
        assert forall|r: int| 0 <= r < n - exm_of(air, i) implies congr(tr_at(air, rap, t, #[trigger] row_point(g, r))[i], 0) by { assert(exm_of(air, i) >= 0); lemma_frame_rows(air, rap, main, d, log, r1, r); assert(congr(air.s_transition(row_frame(air, rap, main, r), rap)[i], 0)); }
    }
    assert forall|j: int| 0 <= j < air.s_boundary(rap).constraints@.len() implies #[trigger] boundary_holds(air, rap, t, j) by {
        assert(cell_is(air, rap, main, j)); let c = air.s_boundary(rap).constraints@[j]; assert(c.step < n); assert(c.col < air.s_ctx().trace_columns); lemma_column(air, rap, main, d, log, r1, c.step as int, c.col as int);
    }
}
/// What `satisfied` asks of an honest run follows from its trace satisfying the AIR.
pub proof fn lemma_satisfied(air: &VxAir, main: TraceTable, p: StarkProof, h: Honest, l: int) -> (q: Seq<int>)
    requires honest(air, main, p, h), trace_satisfies(air, h.r1.rap_challenges, main), air_law(air, h.r1.rap_challenges, l), l <= 2 * air.s_trace_length() + 1, l <= air.s_trace_length() * air.s_options().blowup_factor
    ensures satisfied(air, main, h, q)
{
    lemma_sizes(air, h.d); let n = air.s_trace_length(); let t = h.r1.trace_polys@; let rap = h.r1.rap_challenges; lemma_poly_lens(air, main, p, h, n); assert(columns_within(t, n)); assert(length_law(air));
    lemma_columns_satisfy(air, rap, main, h.d, Seq::empty(), h.r1, l);
    theorem_composes(air, rap, t, h.bc, h.tc, l)
}
