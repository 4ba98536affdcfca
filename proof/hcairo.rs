// ---- prelude: an honest Cairo execution satisfies the whole AIR ---------------------------------------------
/// Rows at the end a constraint does not apply to, as CairoAIR::new lists them.
pub open spec fn exempted(i: int) -> int { if 20 <= i <= 23 || i == 34 || i == 38 || i == 42 || i == 45 { 1 } else { 0 } }
pub open spec fn constraints_of(p: PublicInputs) -> int { if rc_range(p) is Some { 50 } else { 49 } }
/// Constraint i is 0 in every frame f of a row r it applies to.
pub open spec fn holds_on(f: Frame, main: TraceTable, t: TraceTable, p: PublicInputs, rap: CairoRAPChallenges, r: int, i: int) -> bool { shows_rows(&f, main, t, r) && 0 <= r < main.nr() - exempted(i) ==> congr(poly(&f, &rap, shift(p), i), 0) }
pub open spec fn transitions_hold(main: TraceTable, t: TraceTable, p: PublicInputs, rap: CairoRAPChallenges) -> bool { forall|f: Frame, r: int, i: int| 0 <= i < constraints_of(p) ==> #[trigger] holds_on(f, main, t, p, rap, r, i) }
/// The cell a boundary constraint names holds its value.
pub open spec fn pin_holds(main: TraceTable, t: TraceTable, c: BoundaryConstraint) -> bool { c.step < main.nr() && c.col < main.n_cols + t.n_cols && congr(whole_cell(main, t, c.step as int, c.col as int), c.value@) }
/// What boundary_constraints puts into the list.
pub open spec fn cairo_pin(air: &CairoAIR, rap: CairoRAPChallenges, c: BoundaryConstraint) -> bool { is_plain_pin(air, c) || is_memory_pin(air, rap, c) }
pub open spec fn pins_hold(air: &CairoAIR, main: TraceTable, t: TraceTable, rap: CairoRAPChallenges) -> bool { forall|c: BoundaryConstraint| #[trigger] cairo_pin(air, rap, c) ==> pin_holds(main, t, c) }
/// The AIR of the run.
pub open spec fn air_of(air: &CairoAIR, main: TraceTable, p: PublicInputs) -> bool { air.pub_inputs == p && air.trace_length == main.nr() && air.has_rc_builtin == (rc_range(p) is Some) }
proof fn lemma_rows_all(f: Frame, main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, size: int, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, lo: int, hi: int, r: int, i: int)
    requires cairo_run(rows, m, p, size), traces_of(main, t, m, rows, p, n1, n2, mh, rh, rap, lo, hi), 0 <= i < constraints_of(p)
    ensures holds_on(f, main, t, p, rap, r, i)
{
    if shows_rows(&f, main, t, r) && 0 <= r < main.nr() - exempted(i) {
        if i < 31 { lemma_rows_step(&f, main, t, m, rows, p, size, n1, n2, mh, rh, rap, lo, hi, r, i); }
        else if i < 43 { lemma_memory_ok(rows, m, p, size); lemma_rows_memory(&f, main, t, m, rows, p, n1, n2, mh, rh, rap, lo, hi, r, i); }
        else if i < 49 { lemma_rows_range(&f, main, t, m, rows, p, n1, n2, mh, rh, rap, lo, hi, r, i); }
        else {
            let c = row0(&f); assert(c.len() == 61); assert forall|k: int| 34 <= k < 43 implies (#[trigger] c[k])@ == main.cell(r, k)@ by { lemma_main_cell(&f, main, t, r, k); assert(c[k] == f.data@[0 * f.row_width + k]); }
            lemma_main_cell(&f, main, t, r, 42); lemma_row_limbs(main, m, rows, p, size, n1, n2, mh, rh, c, r);
        }
    }
}
proof fn lemma_cancel_product(u: int, v: int, q: int, w: int) requires congr(u * q, w), congr(v * q, w), !congr(q, 0) ensures congr(u, v) { assert(u * q == q * u && v * q == q * v) by (nonlinear_arith); lemma_congr_cancel(q, u, v); }
/// The public product is not zero.
proof fn lemma_public_nonzero(main: TraceTable, p: &PublicInputs, rap: CairoRAPChallenges, a2: Seq<FE>, v2: Seq<FE>) requires nonzero_factors(main, p, rap), public_ok(p), segments_apart(p), p.public_memory@.dom().finite(), with_public(flat(main, access_cols()), flat(main, value_cols()), p, a2, v2), p.public_memory@.dom().len() <= a2.len()
    ensures !congr(mem_product(p.public_memory@, rap.z_memory@, rap.alpha_memory@), 0)
{
    let (z, al) = (rap.z_memory@, rap.alpha_memory@); let n = p.public_memory@.dom().len() as int; let k = a2.len() - n; let (a, v) = (a2.subrange(k, a2.len() as int), v2.subrange(k, a2.len() as int)); let q = pairs(a, v);
    assert(access_cols().len() == 4 && value_cols().len() == 4);
    assert forall|i: int| 0 <= i < n implies (#[trigger] a[i])@ == pub_addr(out_range(p), n, i) && v[i] == p.public_memory@[pub_addr(out_range(p), n, i)] by { assert(a2[k + i]@ == pub_addr(out_range(p), n, i)); }
    assert forall|i: int| 0 <= i < n implies !congr(#[trigger] factor_at(q, z, al, i), 0) by { assert(a[i]@ == pub_addr(out_range(p), n, i)); assert(!congr(cell_factor(pub_addr(out_range(p), n, i), p.public_memory@[pub_addr(out_range(p), n, i)]@, z, al), 0)); }
    lemma_public_product(p, a, v, z, al); lemma_pairs_nonzero(q, z, al, n);
}
/// The end of the memory product is what the boundary demands.
proof fn lemma_pin_memory(air: &CairoAIR, main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, size: int, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, lo: int, hi: int, c: BoundaryConstraint)
    requires cairo_run(rows, m, p, size), traces_of(main, t, m, rows, p, n1, n2, mh, rh, rap, lo, hi), air_of(air, main, p), is_memory_pin(air, rap, c)
    ensures pin_holds(main, t, c)
{
    lemma_memory_ok(rows, m, p, size); lemma_dummies(main, m, rows, p, n1, n2, mh, rh); theorem_memory_product(main, &p, rap, t); let (a, v) = (flat(main, access_cols()), flat(main, value_cols())); let (sa, sv) = (flat(t, span(3, 4)), flat(t, span(7, 4)));
    let (a2, v2) = choose|a2: Seq<FE>, v2: Seq<FE>| #[trigger] with_public(a, v, &p, a2, v2) && pairs(sa, sv).to_multiset() == pairs(a2, v2).to_multiset(); lemma_public_nonzero(main, &p, rap, a2, v2);
    lemma_cancel_product(t.cell(main.nr() - 1, 14)@, c.value@, mem_product(p.public_memory@, rap.z_memory@, rap.alpha_memory@), ipow(rap.z_memory@, p.public_memory@.dom().len()));
    assert(c.col == main.n_cols + 14);
}
proof fn lemma_pin_plain(air: &CairoAIR, main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, size: int, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, lo: u16, hi: u16, c: BoundaryConstraint)
    requires cairo_run(rows, m, p, size), traces_of(main, t, m, rows, p, n1, n2, mh, rh, rap, lo as int, hi as int), air_of(air, main, p), p.range_check_min == Some(lo), p.range_check_max == Some(hi), is_plain_pin(air, c)
    ensures pin_holds(main, t, c)
{
    let n0 = rows.len() as int; let e = main.nr() - 1; assert(n0 <= main.nr()); assert(row_records(main, 0, m, rows[0], 0 + 1 == n0)); assert(row_records(main, n0 - 1, m, rows[n0 - 1], n0 - 1 + 1 == n0));
    let (o, s, col) = (flat(main, offset_cols()), flat(t, span(0, 3)), flat(t, span(15, 3))); theorem_range_ends(main, m, rows, p, n1, n2, mh, rh, rap, t, lo as int, hi as int);
    assert(span(0, 3).len() == 3 && span(15, 3).len() == 3); assert(span(0, 3)[0] == 0 && span(0, 3)[2] == 2 && span(15, 3)[2] == 17); lemma_flat_at(t, span(0, 3), 0, 0); lemma_flat_at(t, span(0, 3), e, 2); lemma_flat_at(t, span(15, 3), e, 2);
    assert(s[0] == t.cell(0, 0)); assert(s.last() == t.cell(e, 2)); assert(col.last() == t.cell(e, 17)); let w = main.n_cols as int; assert(43 - off(air) == w && 45 - off(air) == w + 2 && 60 - off(air) == w + 17);
    assert(main.cell(0, 17)@ == rows[0].ap && main.cell(0, 18)@ == rows[0].fp && main.cell(0, 19)@ == rows[0].pc); assert(main.cell(n0 - 1, 17)@ == rows.last().ap && main.cell(n0 - 1, 19)@ == rows.last().pc);
}
/// The public inputs that build_main_trace completes differ from the given ones in the range-check bounds only.
pub open spec fn completes(p0: PublicInputs, p: PublicInputs, lo: u16, hi: u16) -> bool { p == (PublicInputs { range_check_min: Some(lo), range_check_max: Some(hi), ..p0 }) }
proof fn lemma_completed(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p0: PublicInputs, p: PublicInputs, size: int, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, lo: u16, hi: u16)
    requires cairo_run(rows, m, p0, size), completes(p0, p, lo, hi), main_rows(main, rows.len() as int, n1, n2, p0, mh, rh)
    ensures cairo_run(rows, m, p, size), main_rows(main, rows.len() as int, n1, n2, p, mh, rh)
{
    let n0 = rows.len() as int; assert(out_range(&p) == out_range(&p0)); assert(rc_range(p) == rc_range(p0));
    assert forall|v: int| #[trigger] reached(main, n0, p, v) == reached(main, n0, p0, v) by {}
    assert forall|v: int| between(main, n0, p0, v) implies #[trigger] between(main, n0, p, v) by { let (lo, hi) = choose|lo: int, hi: int| #[trigger] reached(main, n0, p0, lo) && #[trigger] reached(main, n0, p0, hi) && lo < v < hi; assert(reached(main, n0, p, lo) && reached(main, n0, p, hi)); }
    assert(skips(main, n0, p, mh)) by {
        assert forall|j: int| 0 <= j < mh.len() implies rep(#[trigger] mh[j]) > 0 && !reached(main, n0, p, rep(mh[j])) && between(main, n0, p, rep(mh[j])) by { assert(between(main, n0, p0, rep(mh[j]))); assert(!reached(main, n0, p0, rep(mh[j]))); }
        assert forall|lo: int, v: int, hi: int| #[trigger] reached(main, n0, p, lo) && #[trigger] reached(main, n0, p, hi) && lo < v < hi && !#[trigger] reached(main, n0, p, v) implies listed(mh, v) by { assert(reached(main, n0, p0, lo) && reached(main, n0, p0, hi) && !reached(main, n0, p0, v)); }
    }
}
/// What build_main_trace returns for a run (its contract), and what it makes of the public inputs.
pub open spec fn main_built(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p0: PublicInputs, p: PublicInputs, lo: u16, hi: u16) -> bool {
    &&& main.wf() && main.n_cols == (if rc_range(p0) is Some { 43int } else { 34 }) && all_recorded(main, m, rows)
    &&& rc_range(p0) is Some ==> limb_rows(main, m, rc_range(p0).unwrap(), rows.len() as int)
    &&& completes(p0, p, lo, hi) && continuous(main, lo as int, hi as int)
    &&& exists|n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>| #[trigger] main_rows(main, rows.len() as int, n1, n2, p0, mh, rh)
}
/// What build_auxiliary_trace returns (its contract).
pub open spec fn aux_built(t: TraceTable, main: TraceTable, p: PublicInputs, rap: CairoRAPChallenges) -> bool { t.wf() && t.n_cols == 18 && t.nr() == main.nr() && aux_memory(main, &p, rap, t) && aux_range_check(main, rap, t) }
proof fn lemma_some_offset(main: TraceTable, lo: int, hi: int) requires continuous(main, lo, hi), main.nr() > 0 ensures lo <= hi { lemma_off_col(0); let v = off16(main.cell(0, off_cols()[0] as int)); assert(in_use(main, off_cols(), v)); }
pub proof fn lemma_product_nonzero(main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, size: int, rap: CairoRAPChallenges)
    requires cairo_run(rows, m, p, size), nonzero_factors(main, &p, rap), aux_built(t, main, p, rap), p.public_memory@.dom().len() <= 4 * main.nr()
    ensures !congr(mem_product(p.public_memory@, rap.z_memory@, rap.alpha_memory@), 0)
{
    lemma_memory_ok(rows, m, p, size); let (a, v) = (flat(main, access_cols()), flat(main, value_cols())); let (sa, sv) = (flat(t, span(3, 4)), flat(t, span(7, 4))); assert(access_cols().len() == 4); assert(main.nr() * 4 == 4 * main.nr());
    let (a2, v2) = choose|a2: Seq<FE>, v2: Seq<FE>| #[trigger] with_public(a, v, &p, a2, v2) && pairs(sa, sv).to_multiset() == pairs(a2, v2).to_multiset(); lemma_public_nonzero(main, &p, rap, a2, v2);
}
/// The public memory fits into the table; so do the premises of the builders.
pub proof fn lemma_tables_fit(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p0: PublicInputs, p: PublicInputs, size: int, lo: u16, hi: u16)
    requires cairo_run(rows, m, p0, size), main_built(main, m, rows, p0, p, lo, hi)
    ensures cairo_run(rows, m, p, size), public_ok(&p), main.nr() > 0, p.public_memory@.dom().len() <= 4 * main.nr(), main.n_cols > OFF_OP1, rc_range(p) == rc_range(p0), p.num_steps >= 1
{
    let (n1, n2, mh, rh) = choose|n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>| #[trigger] main_rows(main, rows.len() as int, n1, n2, p0, mh, rh); lemma_completed(main, m, rows, p0, p, size, n1, n2, mh, rh, lo, hi); lemma_memory_ok(rows, m, p, size);
    let n = p.public_memory@.dom().len() as int; lemma_tail_fits(main, n2, n, n2 - 1); assert(main.nr() - n2 >= n / 4 + 1); assert(n2 >= 1);
}
/// On the tables built for a Cairo run every transition constraint of the AIR is 0 on every row it applies to, and every cell a boundary constraint names holds its value.
pub proof fn theorem_complete(air: &CairoAIR, main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p0: PublicInputs, p: PublicInputs, size: int, rap: CairoRAPChallenges, lo: u16, hi: u16)
    requires cairo_run(rows, m, p0, size), main_built(main, m, rows, p0, p, lo, hi), nonzero_factors(main, &p, rap), aux_built(t, main, p, rap), air_of(air, main, p)
    ensures transitions_hold(main, t, p, rap), pins_hold(air, main, t, rap)
{
    let (n1, n2, mh, rh) = choose|n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>| #[trigger] main_rows(main, rows.len() as int, n1, n2, p0, mh, rh); assert(main.nr() >= 1); lemma_some_offset(main, lo as int, hi as int);
    lemma_completed(main, m, rows, p0, p, size, n1, n2, mh, rh, lo, hi);
    assert(traces_of(main, t, m, rows, p, n1, n2, mh, rh, rap, lo as int, hi as int));
    assert forall|f: Frame, r: int, i: int| 0 <= i < constraints_of(p) implies #[trigger] holds_on(f, main, t, p, rap, r, i) by { lemma_rows_all(f, main, t, m, rows, p, size, n1, n2, mh, rh, rap, lo as int, hi as int, r, i); }
    assert forall|c: BoundaryConstraint| #[trigger] cairo_pin(air, rap, c) implies pin_holds(main, t, c) by {
        if is_plain_pin(air, c) { lemma_pin_plain(air, main, t, m, rows, p, size, n1, n2, mh, rh, rap, lo, hi, c); } else { lemma_pin_memory(air, main, t, m, rows, p, size, n1, n2, mh, rh, rap, lo as int, hi as int, c); }
    }
}
