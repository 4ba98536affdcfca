// ---- prelude: the range-check columns of an honest trace satisfy their equations ----------------------------
proof fn lemma_off_col(k: int) requires 0 <= k < 3 ensures offset_cols().len() == 3, off_cols().len() == 3, offset_cols()[k] == OFF_DST + k, off_cols()[k] as int == OFF_DST + k { if k == 0 {} else if k == 1 {} else {} }
/// Every offset of the table is a 16-bit number.
proof fn lemma_offset_bound(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, i: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), 0 <= i < 3 * main.nr()
    ensures flat(main, offset_cols()).len() == 3 * main.nr(), flat(main, offset_cols())[i] == offs(main, i / 3, i % 3), 0 <= flat(main, offset_cols())[i]@ < 0x1_0000, off16(flat(main, offset_cols())[i]) == flat(main, offset_cols())[i]@, rep(flat(main, offset_cols())[i]) < 0x1_0000
{
    broadcast use axiom_P; let (r, k) = (i / 3, i % 3); lemma_off_col(k); assert(3 * r + k == i); lemma_flat_at(main, offset_cols(), r, k); let n0 = rows.len() as int; let o = offs(main, r, k);
    assert(0 <= o@ < 0x1_0000) by {
        if r < n0 { lemma_recorded_offset(main, m, rows, p, r, k); }
        else { assert(filler(main, r, n0, n1, mh, rh)); assert(off_cell(main, r, k, n0, rh)); if o == offs(main, n0 - 1, k) { lemma_recorded_offset(main, m, rows, p, n0 - 1, k); } else { let j = choose|j: int| 0 <= j < rh.len() && #[trigger] rh[j] == o; assert(0 <= rh[j]@ < 0x1_0000); } }
    }
    vstd::arithmetic::div_mod::lemma_small_mod(o@ as nat, P() as nat);
}
proof fn lemma_recorded_offset(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, r: int, k: int)
    requires run_ok(rows, m, p), all_recorded(main, m, rows), 0 <= r < rows.len(), 0 <= k < 3
    ensures 0 <= offs(main, r, k)@ < 0x1_0000
{
    broadcast use axiom_P; let t = rows[r]; assert(row_records(main, r, m, t, r + 1 == rows.len())); let w = word(m[t.pc as int]); assert(w >= 0); lemma_offsets(w);
    vstd::arithmetic::div_mod::lemma_mod_bound(w, 0x1_0000); vstd::arithmetic::div_mod::lemma_mod_bound(w / 0x1_0000, 0x1_0000); vstd::arithmetic::div_mod::lemma_mod_bound(w / 0x1_0000_0000, 0x1_0000);
    if k == 0 {} else if k == 1 {} else {}
}
pub open spec fn has_u(s: Seq<u16>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == v }
proof fn lemma_has_same(a: Seq<u16>, b: Seq<u16>, v: int) requires a.to_multiset() == b.to_multiset(), has_u(a, v) ensures has_u(b, v)
{ a.to_multiset_ensures(); b.to_multiset_ensures(); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) == v; assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j] == v); }
/// The sorted column holds exactly the values from lo to hi.
proof fn lemma_sorted_values(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, t: TraceTable, lo: int, hi: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), aux_range_check(main, rap, t), t.nr() == main.nr(), continuous(main, lo, hi), main.nr() > 0
    ensures flat(t, span(0, 3)).len() == 3 * main.nr(), flat(t, span(15, 3)).len() == 3 * main.nr(), forall|v: int| 0 <= v < 0x1_0000 ==> #[trigger] has_u(vals16(flat(t, span(0, 3))), v) == (lo <= v <= hi), lo <= hi ==> 0 <= lo && hi < 0x1_0000
{
    assert(span(0, 3).len() == 3 && span(15, 3).len() == 3); let s = flat(t, span(0, 3)); let o = flat(main, offset_cols()); let (us, uo) = (vals16(s), offs16(o)); lemma_offset_bound(main, m, rows, p, n1, n2, mh, rh, 0);
    assert forall|v: int| 0 <= v < 0x1_0000 implies #[trigger] has_u(us, v) == (lo <= v <= hi) by {
        if has_u(us, v) { lemma_has_same(us, uo, v); let i = choose|i: int| 0 <= i < uo.len() && (#[trigger] uo[i]) == v; lemma_offset_bound(main, m, rows, p, n1, n2, mh, rh, i); lemma_off_col(i % 3); assert(off16(main.cell(i / 3, off_cols()[i % 3] as int)) == v); assert(in_use(main, off_cols(), v)); }
        if lo <= v <= hi {
            assert(in_use(main, off_cols(), v)); lemma_off_col(0); let (r, k) = choose|r: int, k: int| 0 <= r < main.nr() && 0 <= k < off_cols().len() && off16(#[trigger] main.cell(r, off_cols()[k] as int)) == v; lemma_off_col(k);
            let i = 3 * r + k; assert(i / 3 == r && i % 3 == k); lemma_offset_bound(main, m, rows, p, n1, n2, mh, rh, i); assert(uo[i] == v); lemma_has_same(uo, us, v);
        }
    }
    broadcast use axiom_P; if lo <= hi { assert(in_use(main, off_cols(), lo) && in_use(main, off_cols(), hi)); }
}
/// The range-check equations between cells j and j + 1 of the lists.
pub open spec fn range_step_ok(z: int, o: Seq<FE>, s: Seq<FE>, col: Seq<FE>, j: int) -> bool { congr(climbs(s[j]@, s[j + 1]@), 0) && congr(rc_step(z, s[j + 1]@, col[j + 1]@, o[j + 1]@, col[j]@), 0) }
/// Where the lists end, and the equation that wraps round to their start.
pub open spec fn range_ends_ok(z: int, o: Seq<FE>, s: Seq<FE>, col: Seq<FE>, lo: int, hi: int) -> bool { s[0]@ == lo && s.last()@ == hi && congr(col.last()@, 1) && congr(rc_step(z, s[0]@, col[0]@, o[0]@, col.last()@), 0) }
proof fn lemma_sorted_nonzero16(main: TraceTable, p: PublicInputs, rap: CairoRAPChallenges, s: Seq<FE>, n: int)
    requires nonzero_factors(main, &p, rap), vals16(s).to_multiset() == offs16(flat(main, offset_cols())).to_multiset(), 0 <= n <= s.len(), main.nr() >= 0
    ensures !congr(gp16(rap.z_range_check@, vals16(s), n), 0)
{
    let z = rap.z_range_check@; let o = flat(main, offset_cols()); let (us, uo) = (vals16(s), offs16(o)); lemma_off_col(0); assert(main.nr() * 3 == 3 * main.nr());
    assert forall|i: int| 0 <= i < n implies !congr(z, (#[trigger] us[i]) as int) by { assert(has_u(us, us[i] as int)); lemma_has_same(us, uo, us[i] as int); let j = choose|j: int| 0 <= j < uo.len() && (#[trigger] uo[j]) == us[i] as int; assert(!congr(z, off16(flat(main, offset_cols())[j]))); broadcast use axiom_P; }
    lemma_gp_nonzero(us, z, n);
}
proof fn lemma_prefix_nonzero(main: TraceTable, p: PublicInputs, rap: CairoRAPChallenges, t: TraceTable, n: int)
    requires nonzero_factors(main, &p, rap), aux_range_check(main, rap, t), 0 <= n <= flat(t, span(0, 3)).len(), main.nr() >= 0
    ensures !congr(gap_prod(rap.z_range_check@, flat(t, span(0, 3)), n), 0)
{
    let z = rap.z_range_check@; let s = flat(t, span(0, 3)); lemma_sorted_nonzero16(main, p, rap, s, n);
    assert forall|i: int| 0 <= i < s.len() implies congr((#[trigger] s[i])@, vals16(s)[i] as int) by {} lemma_gp_vals(s, vals16(s), z, n);
}
proof fn lemma_small_climb(a: int, b: int) requires a <= b <= a + 1 ensures climbs(a, b) == 0 { let (x, y) = (a - b, b - a - 1); assert(x == 0 || y == 0); assert(x * y == 0) by (nonlinear_arith) requires x == 0 || y == 0; }
/// Along the flattened columns every range-check equation holds.
pub proof fn theorem_range_check(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, t: TraceTable, lo: int, hi: int, j: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), nonzero_factors(main, &p, rap), aux_range_check(main, rap, t), t.nr() == main.nr(), continuous(main, lo, hi), 0 <= j, j + 1 < 3 * main.nr()
    ensures range_step_ok(rap.z_range_check@, flat(main, offset_cols()), flat(t, span(0, 3)), flat(t, span(15, 3)), j)
{
    let z = rap.z_range_check@; let (o, s, col) = (flat(main, offset_cols()), flat(t, span(0, 3)), flat(t, span(15, 3))); lemma_sorted_values(main, m, rows, p, n1, n2, mh, rh, rap, t, lo, hi); lemma_offset_bound(main, m, rows, p, n1, n2, mh, rh, j);
    let us = vals16(s); let (x, y) = (s[j]@, s[j + 1]@); assert(x <= y); assert(us[j] == x && us[j + 1] == y); assert(has_u(us, x) && has_u(us, y));
    if y > x + 1 {
        let v = x + 1; assert(has_u(us, v)); let i = choose|i: int| 0 <= i < us.len() && (#[trigger] us[i]) == v; assert(s[i]@ == v); if i <= j { assert(s[i]@ <= s[j]@); } else { assert(s[j + 1]@ <= s[i]@); }
    }
    lemma_small_climb(x, y);
    lemma_prefix_nonzero(main, p, rap, t, j + 1);
    assert(congr(col[j]@ * gap_prod(z, s, j + 1), gap_prod(z, o, j + 1))); assert(congr(col[j + 1]@ * gap_prod(z, s, j + 2), gap_prod(z, o, j + 2)));
    lemma_quotient_step(gap_prod(z, s, j + 1), z - y, gap_prod(z, o, j + 1), z - o[j + 1]@, col[j]@, col[j + 1]@);
}
pub proof fn theorem_range_ends(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, t: TraceTable, lo: int, hi: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), nonzero_factors(main, &p, rap), aux_range_check(main, rap, t), t.nr() == main.nr(), continuous(main, lo, hi), main.nr() > 0, lo <= hi
    ensures range_ends_ok(rap.z_range_check@, flat(main, offset_cols()), flat(t, span(0, 3)), flat(t, span(15, 3)), lo, hi)
{
    let z = rap.z_range_check@; let (o, s, col) = (flat(main, offset_cols()), flat(t, span(0, 3)), flat(t, span(15, 3))); lemma_sorted_values(main, m, rows, p, n1, n2, mh, rh, rap, t, lo, hi); lemma_offset_bound(main, m, rows, p, n1, n2, mh, rh, 0);
    let us = vals16(s); let e = s.len() - 1; assert(us[0] == s[0]@ && us[e] == s[e]@); assert(has_u(us, us[0] as int) && has_u(us, us[e] as int)); assert(has_u(us, lo) && has_u(us, hi));
    let i = choose|i: int| 0 <= i < us.len() && (#[trigger] us[i]) == lo; let k = choose|k: int| 0 <= k < us.len() && (#[trigger] us[k]) == hi; assert(s[0]@ <= s[i]@ && s[k]@ <= s[e]@); assert(s[i]@ == lo && s[k]@ == hi);
    assert forall|i: int| 0 <= i < 3 * main.nr() implies rep(#[trigger] flat(main, offset_cols())[i]) < 0x1_0000 by { lemma_offset_bound(main, m, rows, p, n1, n2, mh, rh, i); }
    theorem_range_check_product(main, &p, rap, t); assert(e / 3 == main.nr() - 1 && e % 3 == 2); assert(span(15, 3).len() == 3); assert(col[e] == t.cell(main.nr() - 1, 17));
    assert(congr(col[0]@ * gap_prod(z, s, 1), gap_prod(z, o, 1))); assert(gap_prod(z, s, 0) == 1 && gap_prod(z, o, 0) == 1); let (fs, fo) = (z - s[0]@, z - o[0]@); assert(1 * fs == fs && 1 * fo == fo);
    let (c, q) = (col[0]@, col[e]@); assert(fs * c == c * fs) by (nonlinear_arith); lemma_congr_mul(fo, fo, q, 1); assert(fo * 1 == fo); assert(congr(fs * c, fo)); assert(congr(fo * q, fo)); lemma_zero(fs * c, fo * q);
}
