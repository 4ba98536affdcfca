//@ include fe.rs
//@ include num.rs
//@ include map.rs
//@ include uint.rs
//@ consts cairo/air.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/cairo_mem.rs CairoMemory
//@ item starks/trace.rs TraceTable
//@ item cairo/air.rs CairoRAPChallenges
//@ include table.rs
//@ include rc.rs
//@ use c02 CairoMemory::get
//@ use c08 TraceTable::get_cols
//@ raw
use std::ops::Range;
pub proof fn lemma_div_twice(x: int, a: int, b: int) requires x >= 0, a > 0, b > 0 ensures (x / a) / b == x / (b * a)
{ vstd::arithmetic::div_mod::lemma_div_denominator(x, a, b); assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn lemma_congr_sub(a: int, b: int) requires !congr(a, b) ensures !congr(a - b, 0)
{
    if congr(a - b, 0) { broadcast use axiom_P;
        vstd::arithmetic::div_mod::lemma_mod_equivalence(a, b, P()); }
}
pub proof fn lemma_step(p: int, ds: int, ns: int, num: int, d: int, inv: int, q: int)
    requires congr(p * ds, ns), congr(inv * d, 1), q == p * num * inv
    ensures congr(q * (ds * d), ns * num)
{
    broadcast use axiom_P;
    let m = P();
    assert(q * (ds * d) == ((p * ds) * num) * (inv * d)) by (nonlinear_arith) requires q == p * num * inv;
    lemma_congr_mul(p * ds, ns, num, num);
    lemma_congr_mul((p * ds) * num, ns * num, inv * d, 1);
    assert(ns * num * 1 == ns * num);
}
pub proof fn lemma_congr_mul(a: int, b: int, c: int, d: int) requires congr(a, b), congr(c, d) ensures congr(a * c, b * d)
{
    broadcast use axiom_P;
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(a, c, P());
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(b, d, P());
}
//@ include limbs.rs
//@ raw
pub open spec fn has(a: Seq<FE>, v: int) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == v }
pub open spec fn has16(s: Seq<u16>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == v }
pub open spec fn sorted16(s: Seq<u16>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
/// a lists, in order, the values strictly between s[0] and s[j] that s does not contain.
pub open spec fn gaps(s: Seq<u16>, a: Seq<FE>, j: int) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> s[0] < (#[trigger] a[i])@ < s[j] && !has16(s, a[i]@))
    && (forall|i: int, k: int| 0 <= i < k < a.len() ==> a[i]@ < a[k]@)
    && (forall|v: int| s[0] < v < s[j] && !has16(s, v) ==> #[trigger] has(a, v))
}
pub proof fn lemma_gap(s: Seq<u16>, a: Seq<FE>, j: int, m: Seq<FE>)
    requires sorted16(s), 0 <= j < s.len() - 1, gaps(s, a, j), s[j] < s[j + 1], m.len() == s[j + 1] - s[j] - 1,
        forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@ == s[j] + 1 + i,
    ensures gaps(s, a + m, j + 1)
{
    let b = a + m;
    assert forall|v: int| s[j] < v < s[j + 1] implies !has16(s, v) by { if has16(s, v) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == v; if i <= j { assert(s[i] <= s[j]); } else { assert(s[j + 1] <= s[i]); } } }
    assert forall|i: int| 0 <= i < b.len() implies s[0] < (#[trigger] b[i])@ < s[j + 1] && !has16(s, b[i]@) by { if i < a.len() { assert(b[i] == a[i]); } else { assert(b[i] == m[i - a.len()]); assert(s[0] <= s[j]); } }
    assert forall|i: int, k: int| 0 <= i < k < b.len() implies b[i]@ < b[k]@ by {
        if i < a.len() { assert(b[i] == a[i]); assert(a[i]@ < s[j]); } else { assert(b[i] == m[i - a.len()]); }
        if k < a.len() { assert(b[k] == a[k]); } else { assert(b[k] == m[k - a.len()]); }
    }
    assert forall|v: int| s[0] < v < s[j + 1] && !has16(s, v) implies #[trigger] has(b, v) by {
        if v < s[j] { assert(has(a, v)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == v; assert(b[i]@ == v); }
        else if v == s[j] { assert(s[j] == v); assert(false); }
        else { let i = v - s[j] - 1; assert(b[a.len() + i] == m[i]); assert(b[a.len() + i]@ == v); }
    }
}
/// The flattened sub-table lists exactly the values in use.
pub proof fn lemma_use(t: TraceTable, cols: Seq<usize>, sub: TraceTable, u: Seq<u16>, s: Seq<u16>)
    requires t.wf(), cols.len() > 0, sub.n_cols == cols.len(), sub.table@.len() == t.nr() * cols.len(),
        forall|r: int, k: int| 0 <= r < t.nr() && 0 <= k < cols.len() ==> #[trigger] sub.cell(r, k) == t.cell(r, cols[k] as int),
        u.len() == sub.table@.len(), forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]) == off16(sub.table@[i]),
        u.to_multiset() == s.to_multiset(),
    ensures forall|v: int| has16(s, v) == in_use(t, cols, v)
{
    lemma_same_elems(u, s);
    let n = cols.len() as int;
    assert forall|v: int| has16(s, v) == in_use(t, cols, v) by {
        if has16(s, v) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == v;
            assert(s.contains(s[i])); assert(u.contains(s[i]));
            let j = choose|j: int| 0 <= j < u.len() && u[j] == s[i];
            let (r, k) = (j / n, j % n);
            assert(j == r * n + k && 0 <= k < n && 0 <= r) by (nonlinear_arith) requires r == j / n, k == j % n, n > 0, j >= 0;
            assert(r < t.nr()) by (nonlinear_arith) requires r * n <= j, j < t.nr() * n, n > 0;
            assert(sub.cell(r, k) == t.cell(r, cols[k] as int));
            assert(off16(t.cell(r, cols[k] as int)) == v);
        }
        if in_use(t, cols, v) {
            let (r, k) = choose|r: int, k: int| 0 <= r < t.nr() && 0 <= k < cols.len() && off16(#[trigger] t.cell(r, cols[k] as int)) == v;
            lemma_idx(r, k, t.nr(), n);
            assert(sub.cell(r, k) == t.cell(r, cols[k] as int));
            let j = r * n + k;
            assert(u[j] == v); assert(u.contains(u[j])); assert(s.contains(u[j]));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == u[j];
            assert(s[i] == v);
        }
    }
}
//@ fn cairo/execution_trace.rs get_rc_holes {"methods": {"into": "fn vx_u16_from", "sort": "fn vx_sort_u16&mut "}, "types": {"vo_0": "Vec<u16>", "vo_2": "Vec<FE>"}}
requires trace.wf(), trace.nr() > 0, columns_indices@.len() > 0, forall|i: int| 0 <= i < columns_indices@.len() ==> (#[trigger] columns_indices@[i]) < trace.n_cols,
    trace.nr() * columns_indices@.len() < usize::MAX - 0x1_0000,
ensures
    // the published bounds are those of the offsets
    in_use(*trace, columns_indices@, ret.1 as int), in_use(*trace, columns_indices@, ret.2 as int),
    forall|v: int| in_use(*trace, columns_indices@, v) ==> ret.1 <= v <= ret.2,
    // the holes are the values between them that no offset takes, each once and in order, then the maximum up to a multiple of three
    ret.0@.len() % 3 == 0, ret.0@.len() <= 0x1_0002,
    exists|m: int| 0 <= m <= ret.0@.len() <= m + 2 && #[trigger] missing_then_max(*trace, columns_indices@, ret.0@, ret.1 as int, ret.2 as int, m),
//@ let offset_columns
let ghost sub = TraceTable { table: offset_columns, n_cols: columns_indices@.len() as usize };
assert(sub.table@.len() > 0) by (nonlinear_arith) requires sub.table@.len() == trace.nr() * columns_indices@.len(), trace.nr() > 0, columns_indices@.len() > 0;
//@ let sorted_offset_representatives
let ghost unsorted = sorted_offset_representatives@;
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == offset_columns@.len(), vo_0@.len() == vi_0, forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0@[i]) == off16(offset_columns@[i]),
decreases vn_0 - vi_0
//@ let all_missing_values
let ghost s = sorted_offset_representatives@;
proof { lemma_use(*trace, columns_indices@, sub, unsorted, s); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == s.len() - 1, s == sorted_offset_representatives@, s.len() == offset_columns@.len(), s.len() > 0, sorted16(s), gaps(s, all_missing_values@, vi_1 as int), all_missing_values@.len() <= s[vi_1 as int] - s[0],
    s.len() < usize::MAX - 0x1_0000,
decreases vn_1 - vi_1
//@ let window
proof { assert(s[vj_1 as int] <= s[vj_1 + 1]); }
assert(window@[0] == s[vj_1 as int] && window@[1] == s[vj_1 + 1]);
//@ loop 2
invariant window@.len() == 2, window@[0] < window@[1], vn_2 == window@[1], window@[0] + 1 <= vi_2 <= vn_2, vo_2@.len() == vi_2 - window@[0] - 1, forall|i: int| 0 <= i < vo_2@.len() ==> (#[trigger] vo_2@[i])@ == window@[0] + 1 + i,
decreases vn_2 - vi_2
//@ let missing_range
proof { lemma_gap(s, all_missing_values@, vj_1 as int, missing_range@); }
//@ let multiple_of_three_padding
let ghost a0 = all_missing_values@;
//@ tail
proof {
    let m = a0.len() as int;
    let a = vx_tail.0@;
    assert(has16(s, s[0] as int)); assert(has16(s, s.last() as int));
    assert forall|v: int| in_use(*trace, columns_indices@, v) implies vx_tail.1 <= v <= vx_tail.2 by { assert(has16(s, v)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == v; assert(s[0] <= s[i] <= s[s.len() - 1]); }
    assert forall|i: int| 0 <= i < m implies vx_tail.1 < (#[trigger] a[i])@ < vx_tail.2 && !in_use(*trace, columns_indices@, a[i]@) by { assert(a[i] == a0[i]); }
    assert forall|i: int, j: int| 0 <= i < j < m implies a[i]@ < a[j]@ by { assert(a[i] == a0[i] && a[j] == a0[j]); }
    assert forall|v: int| vx_tail.1 < v < vx_tail.2 && !in_use(*trace, columns_indices@, v) implies exists|i: int| 0 <= i < m && (#[trigger] a[i])@ == v by { assert(has(a0, v)); let i = choose|i: int| 0 <= i < a0.len() && (#[trigger] a0[i])@ == v; assert(a[i]@ == v); }
    assert(missing_then_max(*trace, columns_indices@, a, vx_tail.1 as int, vx_tail.2 as int, m));
}
//@ fn cairo/execution_trace.rs fill_rc_holes
requires old(trace).wf(), old(trace).n_cols > OFF_OP1, holes@.len() % 3 == 0, room(old(trace).table@.len() as int, holes@.len() as int / 3, old(trace).n_cols as int), holes@.len() < usize::MAX - 3,
ensures final(trace).wf(), final(trace).n_cols == old(trace).n_cols, final(trace).nr() == old(trace).nr() + holes@.len() / 3,
    forall|r: int, k: int| 0 <= r < old(trace).nr() && 0 <= k < old(trace).n_cols ==> #[trigger] final(trace).cell(r, k) == old(trace).cell(r, k),
    forall|i: int, k: int| 0 <= i < holes@.len() / 3 && 0 <= k < 3 ==> #[trigger] final(trace).cell(old(trace).nr() + i, OFF_DST + k) == holes@[3 * i + k],
    forall|i: int, c: int| 0 <= i < holes@.len() / 3 && 0 <= c < old(trace).n_cols && !(OFF_DST <= c <= OFF_OP1) ==> (#[trigger] final(trace).cell(old(trace).nr() + i, c))@ == 0,
//@ let zeros_right
let ghost t0 = old(trace).table@;
let ghost n = old(trace).n_cols as int;
let ghost rows0 = old(trace).nr();
let ghost zl = zeros_left@;
let ghost zr = zeros_right@;
let ghost h = holes@;
let ghost g = |r: int, k: int| if r < rows0 { gcell(t0, n, r, k) } else if k < OFF_DST { zl[k] } else if k <= OFF_OP1 { h[3 * (r - rows0) + k - OFF_DST] } else { zr[k - OFF_OP1 - 1] };
assert(filled(t0, n, rows0, 0, g));
//@ before 0
proof { assert((rows0 + holes@.len() / 3) * n == rows0 * n + (holes@.len() / 3) * n) by (nonlinear_arith); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 * 3 == h.len(), h == holes@, zl == zeros_left@, zr == zeros_right@, zl.len() == OFF_DST, zr.len() == n - OFF_OP1 - 1, n == trace.n_cols, n > OFF_OP1, rows0 >= 0,
    filled(trace.table@, n, rows0 + vi_0, 0, g), (rows0 + vn_0) * n <= usize::MAX, h.len() < usize::MAX - 3,
    g == (|r: int, k: int| if r < rows0 { gcell(t0, n, r, k) } else if k < OFF_DST { zl[k] } else if k <= OFF_OP1 { h[3 * (r - rows0) + k - OFF_DST] } else { zr[k - OFF_OP1 - 1] }),
decreases vn_0 - vi_0
//@ loopstart 0
let ghost t1 = trace.table@;
proof {
    let row = rows0 + vi_0;
    let hs = h.subrange(3 * vi_0 as int, 3 * vi_0 + 3);
    lemma_idx(row, n - 1, rows0 + vn_0, n);
    lemma_append(t1, n, row, 0, g, zl);
    lemma_append(t1 + zl, n, row, OFF_DST as int, g, hs);
    lemma_append(t1 + zl + hs, n, row, OFF_OP1 + 1, g, zr);
    lemma_next_row(t1 + zl + hs + zr, n, row, g);
}
//@ loopend 0
proof { assert(trace.table@ =~= t1 + zl + h.subrange(3 * vj_0 as int, 3 * vj_0 + 3) + zr); }
//@ after 0
proof {
    let rows = rows0 + vn_0;
    lemma_rows(rows, n);
    assert forall|r: int, k: int| 0 <= r < rows0 && 0 <= k < n implies #[trigger] trace.cell(r, k) == old(trace).cell(r, k) by { assert(gcell(trace.table@, n, r, k) == g(r, k)); }
    assert forall|i: int, k: int| 0 <= i < h.len() / 3 && 0 <= k < 3 implies #[trigger] trace.cell(rows0 + i, OFF_DST + k) == h[3 * i + k] by { assert(gcell(trace.table@, n, rows0 + i, OFF_DST + k) == g(rows0 + i, OFF_DST + k)); }
    assert forall|i: int, c: int| 0 <= i < h.len() / 3 && 0 <= c < n && !(OFF_DST <= c <= OFF_OP1) implies (#[trigger] trace.cell(rows0 + i, c))@ == 0 by { assert(gcell(trace.table@, n, rows0 + i, c) == g(rows0 + i, c)); }
}
//@ fn cairo/execution_trace.rs decompose_rc_values_into_trace_columns {"methods": {"try_into": "fn vx_to_array"}, "paths": {"FE::from": "FE::from_uint"}, "types": {"vo_0": "Vec<UnsignedInteger<4>>", "vo_2": "Vec<FE>", "vo_3": "Vec<UnsignedInteger<4>>"}}
ensures forall|k: int| 0 <= k < 8 ==> (#[trigger] ret@[k])@.len() == rc_values@.len(),
    forall|k: int, i: int| 0 <= k < 8 && 0 <= i < rc_values@.len() ==> congr((#[trigger] ret@[k]@[i])@, rep(*rc_values@[i]) / ipow(0x1_0000, k as nat) % 0x1_0000),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == rc_values@.len(), vo_0@.len() == vi_0, forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0@[i])@ == rep(*rc_values@[i]),
decreases vn_0 - vi_0
//@ loop 1
invariant 0 <= vi_1 <= vn_1, vn_1 == 8, mask@ == 0xffff, rc_base_types@.len() == rc_values@.len(), decomposition_columns@.len() == vi_1,
    forall|i: int| 0 <= i < rc_values@.len() ==> (#[trigger] rc_base_types@[i])@ == rep(*rc_values@[i]) / ipow(0x1_0000, vi_1 as nat),
    forall|k: int| 0 <= k < vi_1 ==> (#[trigger] decomposition_columns@[k])@.len() == rc_values@.len(),
    forall|k: int, i: int| 0 <= k < vi_1 && 0 <= i < rc_values@.len() ==> congr((#[trigger] decomposition_columns@[k]@[i])@, rep(*rc_values@[i]) / ipow(0x1_0000, k as nat) % 0x1_0000),
decreases vn_1 - vi_1
//@ let mask
proof { reveal_strlit("FFFF"); reveal_with_fuel(hexval, 6); }
assert(mask@ == 0xffff);
//@ loopend 1
proof { assert forall|i: int| 0 <= i < rc_values@.len() implies (#[trigger] rc_base_types@[i])@ == rep(*rc_values@[i]) / ipow(0x1_0000, vi_1 as nat) by {
    let x = rep(*rc_values@[i]); assert(P() > 0) by { broadcast use axiom_P; } assert(x >= 0); assert(rb[i]@ == x / ipow(0x1_0000, vj_1 as nat)); assert(rc_base_types@[i]@ == rb[i]@ / 0x1_0000);
    assert((x / ipow(0x1_0000, vj_1 as nat)) / 0x1_0000 == x / ipow(0x1_0000, (vj_1 + 1) as nat)); } }
//@ loopstart 1
let ghost rb = rc_base_types@;
proof { assert(is_pow2(0x1_0000)) by (compute); assert(ipow(2, 16) == 0x1_0000) by (compute); assert(ipow(0x1_0000, (vi_1 + 1) as nat) == 0x1_0000 * ipow(0x1_0000, vi_1 as nat)); lemma_ipow_pos(0x1_0000, vi_1 as nat); 
  assert forall|x: int| x >= 0 implies #[trigger] (x / ipow(0x1_0000, vi_1 as nat)) / 0x1_0000 == x / ipow(0x1_0000, (vi_1 + 1) as nat) by { lemma_div_twice(x, ipow(0x1_0000, vi_1 as nat), 0x1_0000); } }
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == rc_base_types@.len(), vo_2@.len() == vi_2, mask@ == 0xffff, is_pow2(0x1_0000),
    forall|i: int| 0 <= i < vi_2 ==> congr((#[trigger] vo_2@[i])@, rc_base_types@[i]@ % 0x1_0000),
decreases vn_2 - vi_2
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == rc_base_types@.len(), vo_3@.len() == vi_3, ipow(2, 16) == 0x1_0000,
    forall|i: int| 0 <= i < vi_3 ==> (#[trigger] vo_3@[i])@ == rc_base_types@[i]@ / 0x1_0000,
decreases vn_3 - vi_3
//@ fn cairo/execution_trace.rs add_rc_builtin_columns {"ranges": ["range_check_builtin_range"], "types": {"vo_0": "Vec<&FE>", "vo_2": "Vec<FE>"}}
requires old(trace_cols)@.len() > 0, old(trace_cols)@.len() < usize::MAX - 9, range_check_builtin_range.start <= range_check_builtin_range.end,
    range_check_builtin_range.end - range_check_builtin_range.start <= old(trace_cols)@[0]@.len(),
    forall|a: int| range_check_builtin_range.start <= a < range_check_builtin_range.end ==> #[trigger] memory.data@.dom().contains(a),
ensures final(trace_cols)@.len() == old(trace_cols)@.len() + 9,
    forall|k: int| 0 <= k < old(trace_cols)@.len() ==> #[trigger] final(trace_cols)@[k] == old(trace_cols)@[k],
    forall|k: int| old(trace_cols)@.len() <= k < old(trace_cols)@.len() + 9 ==> (#[trigger] final(trace_cols)@[k])@.len() == old(trace_cols)@[0]@.len(),
    forall|j: int, i: int| old(trace_cols)@.len() <= j < old(trace_cols)@.len() + 8 && 0 <= i < range_check_builtin_range.end - range_check_builtin_range.start ==>
        congr((#[trigger] final(trace_cols)@[j]@[i])@, rep(memory.data@[range_check_builtin_range.start + i]) / ipow(0x1_0000, (j - old(trace_cols)@.len()) as nat) % 0x1_0000),
    forall|j: int, i: int| j == old(trace_cols)@.len() + 8 && 0 <= i < range_check_builtin_range.end - range_check_builtin_range.start ==>
        #[trigger] final(trace_cols)@[j]@[i] == memory.data@[range_check_builtin_range.start + i],
    forall|j: int, i: int| old(trace_cols)@.len() <= j < old(trace_cols)@.len() + 9 && range_check_builtin_range.end - range_check_builtin_range.start <= i < old(trace_cols)@[0]@.len() ==> (#[trigger] final(trace_cols)@[j]@[i])@ == 0,
//@ bodystart
let ghost lo = range_check_builtin_range.start as int;
let ghost n = range_check_builtin_range.end as int - lo;
let ghost c0 = trace_cols@;
let ghost len0 = c0[0]@.len();
//@ loop 0
invariant lo <= vi_0 <= vn_0, vn_0 == lo + n, vo_0@.len() == vi_0 - lo, forall|a: int| lo <= a < lo + n ==> #[trigger] memory.data@.dom().contains(a),
    forall|i: int| 0 <= i < vi_0 - lo ==> *(#[trigger] vo_0@[i]) == memory.data@[lo + i],
decreases vn_0 - vi_0
//@ let rc_trace_columns
let ghost rc = rc_trace_columns@;
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == 8, trace_cols@.len() == c0.len() + vi_1, n <= len0, c0.len() > 0, len0 == c0[0]@.len(), c0.len() < usize::MAX - 9, rc.len() == 8, rc_trace_columns@.len() == 8,
    forall|k: int| vi_1 <= k < 8 ==> #[trigger] rc_trace_columns@[k] == rc[k],
    forall|k: int| 0 <= k < 8 ==> (#[trigger] rc[k])@.len() == n,
    forall|k: int| 0 <= k < c0.len() ==> #[trigger] trace_cols@[k] == c0[k],
    forall|k: int| c0.len() <= k < c0.len() + vi_1 ==> (#[trigger] trace_cols@[k])@.len() == len0,
    forall|j: int, i: int| c0.len() <= j < c0.len() + vi_1 && 0 <= i < n ==> (#[trigger] trace_cols@[j]@[i]) == rc[j - c0.len()]@[i],
    forall|j: int, i: int| c0.len() <= j < c0.len() + vi_1 && n <= i < len0 ==> (#[trigger] trace_cols@[j]@[i])@ == 0,
decreases vn_1 - vi_1
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == n, vo_2@.len() == vi_2, range_checked_values@.len() == n, forall|i: int| 0 <= i < vi_2 ==> #[trigger] vo_2@[i] == *range_checked_values@[i],
decreases vn_2 - vi_2
//@ let rc_values_dereferenced
let ghost rvd = rc_values_dereferenced@;
assert(forall|i: int| 0 <= i < n ==> #[trigger] rvd[i] == memory.data@[lo + i]);
//@ bodyend
assert(trace_cols@.last()@.len() == len0);
assert forall|j: int, i: int| j == c0.len() + 8 && 0 <= i < n implies #[trigger] trace_cols@[j]@[i] == memory.data@[range_check_builtin_range.start + i] by { assert(trace_cols@.last()@[i] == rvd[i]); }
//@ fn cairo/air.rs generate_range_check_permutation_argument_column {"types": {"vo_0": "Vec<FE>", "vo_1": "Vec<FE>"}}
requires offset_column_original@.len() == offset_column_sorted@.len(), forall|i: int| 0 <= i < offset_column_sorted@.len() ==> !congr(rap_challenges.z_range_check@, (#[trigger] offset_column_sorted@[i])@),
ensures ret@.len() == offset_column_original@.len(),
    forall|i: int| 0 <= i < ret@.len() ==> congr((#[trigger] ret@[i])@ * gap_prod(rap_challenges.z_range_check@, offset_column_sorted@, i + 1), gap_prod(rap_challenges.z_range_check@, offset_column_original@, i + 1)),
//@ let denom
let ghost d0 = denom@;
let ghost a = rap_challenges.z_range_check@;
assert forall|i: int| #![auto] 0 <= i < d0.len() implies !congr(d0[i]@, 0) by { assert(d0[i]@ == a - offset_column_sorted@[i]@); lemma_congr_sub(a, offset_column_sorted@[i]@); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == offset_column_sorted@.len(), vo_0@.len() == vi_0, z == rap_challenges.z_range_check, forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0@[i])@ == z@ - offset_column_sorted@[i]@,
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == offset_column_original@.len(), vn_1 == denom@.len(), vn_1 == d0.len(), vo_1@.len() == vi_1, z@ == a, vn_1 == offset_column_sorted@.len(),
    forall|i: int| 0 <= i < vn_1 ==> (#[trigger] d0[i])@ == a - offset_column_sorted@[i]@,
    forall|i: int| 0 <= i < vn_1 ==> congr(#[trigger] denom@[i]@ * d0[i]@, 1),
    congr(vs_1@ * gap_prod(a, offset_column_sorted@, vi_1 as int), gap_prod(a, offset_column_original@, vi_1 as int)),
    forall|i: int| 0 <= i < vi_1 ==> congr((#[trigger] vo_1@[i])@ * gap_prod(a, offset_column_sorted@, i + 1), gap_prod(a, offset_column_original@, i + 1)),
decreases vn_1 - vi_1
//@ loopend 1
proof { lemma_step(ret@, gap_prod(a, offset_column_sorted@, vj_1 as int), gap_prod(a, offset_column_original@, vj_1 as int), a - offset_column_original@[vj_1 as int]@, d0[vj_1 as int]@, den_i@, vs_1@); }
