// ---- prelude: the trace of a run satisfies every equation on every row -------------------------------------
/// A Cairo run with its public inputs: each step is the machine's, memory starts at address 1, the output segment lies behind the program, range-checked cells are below 2^128.
pub open spec fn cairo_run(rows: Seq<RegistersState>, m: Map<int, FE>, p: PublicInputs, size: int) -> bool {
    &&& run_ok(rows, m, p) && states(p, rows, m, size, p.memory_segments) && derivable(rows, m, size, p.memory_segments@)
    &&& size >= 1 && output_behind(out_range(&p), size)
    &&& forall|a: int| #[trigger] m.dom().contains(a) ==> a >= 1
    &&& forall|i: int| 0 <= i < rows.len() - 1 ==> #[trigger] steps_on(m, rows, i)
    &&& rc_range(p) is Some ==> forall|a: int| rc_range(p).unwrap().start <= a < rc_range(p).unwrap().end ==> rep(#[trigger] m[a]) < ipow(0x1_0000, 8)
}
pub open spec fn steps_on(m: Map<int, FE>, rows: Seq<RegistersState>, i: int) -> bool { instruction_ok(m, rows[i]) && follows(m, rows[i], rows[i + 1]) }
pub open spec fn output_behind(r: Option<Range<u64>>, size: int) -> bool { match r { Some(o) => o.start <= o.end && (o.start == o.end || size < o.start), None => true } }
/// The two tables the prover builds for the run, with challenges that are no root of any factor.
pub open spec fn traces_of(main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, lo: int, hi: int) -> bool {
    &&& main_of(main, m, rows, p, n1, n2, mh, rh) && main.n_cols == (if rc_range(p) is Some { 43int } else { 34 })
    &&& rc_range(p) is Some ==> limb_rows(main, m, rc_range(p).unwrap(), rows.len() as int)
    &&& continuous(main, lo, hi) && lo <= hi
    &&& nonzero_factors(main, &p, rap)
    &&& t.nr() == main.nr() && t.n_cols == 18 && aux_memory(main, &p, rap, t) && aux_range_check(main, rap, t)
}
pub open spec fn shift(p: PublicInputs) -> int { if rc_range(p) is Some { 0 } else { 9 } }
// ---- the public memory ------------------------------------------------------------------------------------
proof fn lemma_public_size(s: Set<int>, size: int, r: Option<Range<u64>>) requires s.finite(), size >= 1, output_behind(r, size), forall|a: int| #[trigger] s.contains(a) == public_addr(size, r, a)
    ensures s.len() == size + (match r { Some(o) => o.end - o.start, None => 0 })
{
    let (x, y) = match r { Some(o) => (o.start as int, o.end as int), None => (0, 0) }; let a = vstd::set_lib::set_int_range(1, size + 1); let b = vstd::set_lib::set_int_range(x, y);
    vstd::set_lib::lemma_int_range(1, size + 1); vstd::set_lib::lemma_int_range(x, y); assert(a.disjoint(b)); vstd::set_lib::lemma_set_disjoint_lens(a, b);
    assert forall|k: int| s.contains(k) == #[trigger] a.union(b).contains(k) by { assert(s.contains(k) == public_addr(size, r, k)); } assert(s =~= a.union(b));
}
proof fn lemma_memory_ok(rows: Seq<RegistersState>, m: Map<int, FE>, p: PublicInputs, size: int) requires cairo_run(rows, m, p, size) ensures memory_ok(m, &p) {
    broadcast use axiom_P; let r = out_range(&p); let d = p.public_memory@.dom(); assert(out_of(p.memory_segments@) == r); assert(d.finite()); lemma_public_size(d, size, r); let n = d.len() as int;
    assert(program_len(r, n) == size);
    assert forall|i: int| 0 <= i < n implies d.contains(#[trigger] pub_addr(r, n, i)) by { assert(public_addr(size, r, pub_addr(r, n, i))); }
    assert forall|a: int| #[trigger] d.contains(a) implies m.dom().contains(a) && congr(p.public_memory@[a]@, m[a]@) by { assert(public_addr(size, r, a)); assert(p.public_memory@[a] == m[a]); }
    assert(n <= 0x1000_0000_0000_0000);
}
// ---- cells of a frame -------------------------------------------------------------------------------------
proof fn lemma_main_cell(f: &Frame, main: TraceTable, t: TraceTable, r: int, c: int) requires shows_rows(f, main, t, r), 0 <= c < main.n_cols, t.n_cols == 18 ensures cur(f, c) == main.cell(r, c)@, nxt(f, c) == main.cell((r + 1) % main.nr(), c)@ { assert(cur(f, c) == whole_cell(main, t, r, c)); }
proof fn lemma_aux_cell(f: &Frame, main: TraceTable, t: TraceTable, p: PublicInputs, r: int, c: int) requires shows_rows(f, main, t, r), main.n_cols == (if rc_range(p) is Some { 43int } else { 34 }), t.n_cols == 18, 43 <= c < 61 ensures aux(f, shift(p), c) == t.cell(r, c - 43)@, auxn(f, shift(p), c) == t.cell((r + 1) % main.nr(), c - 43)@ { let d = c - shift(p); assert(cur(f, d) == whole_cell(main, t, r, d)); }
/// Cells k of the memory columns in this row and in the next.
proof fn lemma_mem_cells(f: &Frame, main: TraceTable, t: TraceTable, p: PublicInputs, r: int, k: int)
    requires shows_rows(f, main, t, r), main.n_cols == (if rc_range(p) is Some { 43int } else { 34 }), t.n_cols == 18, t.nr() == main.nr(), 0 <= r < main.nr(), 0 <= k < 4
    ensures ({ let (a, v, sa, sv, col) = (flat(main, access_cols()), flat(main, value_cols()), flat(t, span(3, 4)), flat(t, span(7, 4)), flat(t, span(11, 4))); let (j, q, o) = (4 * r + k, 4 * ((r + 1) % main.nr()) + k, shift(p));
        &&& aux(f, o, 46 + k) == sa[j]@ && aux(f, o, 50 + k) == sv[j]@ && aux(f, o, 54 + k) == col[j]@ && cur(f, 19 + k) == a[j]@ && cur(f, 23 + k) == v[j]@
        &&& auxn(f, o, 46 + k) == sa[q]@ && auxn(f, o, 50 + k) == sv[q]@ && auxn(f, o, 54 + k) == col[q]@ && nxt(f, 19 + k) == a[q]@ && nxt(f, 23 + k) == v[q]@ })
{
    let n = main.nr(); let r2 = (r + 1) % n; vstd::arithmetic::div_mod::lemma_mod_bound(r + 1, n); lemma_access_col(k); assert(span(3, 4).len() == 4 && span(7, 4).len() == 4 && span(11, 4).len() == 4); assert(span(3, 4)[k] == 3 + k && span(7, 4)[k] == 7 + k && span(11, 4)[k] == 11 + k);
    lemma_aux_cell(f, main, t, p, r, 46 + k); lemma_aux_cell(f, main, t, p, r, 50 + k); lemma_aux_cell(f, main, t, p, r, 54 + k); lemma_main_cell(f, main, t, r, 19 + k); lemma_main_cell(f, main, t, r, 23 + k);
    lemma_flat_at(main, access_cols(), r, k); lemma_flat_at(main, value_cols(), r, k); lemma_flat_at(t, span(3, 4), r, k); lemma_flat_at(t, span(7, 4), r, k); lemma_flat_at(t, span(11, 4), r, k);
    lemma_flat_at(main, access_cols(), r2, k); lemma_flat_at(main, value_cols(), r2, k); lemma_flat_at(t, span(3, 4), r2, k); lemma_flat_at(t, span(7, 4), r2, k); lemma_flat_at(t, span(11, 4), r2, k);
}
proof fn lemma_rc_cells(f: &Frame, main: TraceTable, t: TraceTable, p: PublicInputs, r: int, k: int)
    requires shows_rows(f, main, t, r), main.n_cols == (if rc_range(p) is Some { 43int } else { 34 }), t.n_cols == 18, t.nr() == main.nr(), 0 <= r < main.nr(), 0 <= k < 3
    ensures ({ let (a, s, col) = (flat(main, offset_cols()), flat(t, span(0, 3)), flat(t, span(15, 3))); let (j, q, o) = (3 * r + k, 3 * ((r + 1) % main.nr()) + k, shift(p));
        &&& aux(f, o, 43 + k) == s[j]@ && aux(f, o, 58 + k) == col[j]@ && cur(f, 27 + k) == a[j]@
        &&& auxn(f, o, 43 + k) == s[q]@ && auxn(f, o, 58 + k) == col[q]@ && nxt(f, 27 + k) == a[q]@ && s.len() == 3 * main.nr() && col.len() == 3 * main.nr() })
{
    let n = main.nr(); let r2 = (r + 1) % n; vstd::arithmetic::div_mod::lemma_mod_bound(r + 1, n); lemma_off_col(k); assert(span(0, 3).len() == 3 && span(15, 3).len() == 3); assert(span(0, 3)[k] == k && span(15, 3)[k] == 15 + k);
    lemma_aux_cell(f, main, t, p, r, 43 + k); lemma_aux_cell(f, main, t, p, r, 58 + k); lemma_main_cell(f, main, t, r, 27 + k);
    lemma_flat_at(main, offset_cols(), r, k); lemma_flat_at(t, span(0, 3), r, k); lemma_flat_at(t, span(15, 3), r, k);
    lemma_flat_at(main, offset_cols(), r2, k); lemma_flat_at(t, span(0, 3), r2, k); lemma_flat_at(t, span(15, 3), r2, k);
}
// ---- the equations, group by group ------------------------------------------------------------------------
/// Memory: 31 to 42.
proof fn lemma_rows_memory(f: &Frame, main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, lo: int, hi: int, r: int, i: int)
    requires traces_of(main, t, m, rows, p, n1, n2, mh, rh, rap, lo, hi), memory_ok(m, &p), shows_rows(f, main, t, r), 31 <= i < 43, 0 <= r < main.nr(), (i == 34 || i == 38 || i == 42) ==> r < main.nr() - 1
    ensures congr(poly(f, &rap, shift(p), i), 0)
{
    let k = if i < 35 { i - 31 } else if i < 39 { i - 35 } else { i - 39 }; let j = 4 * r + k; lemma_mem_cells(f, main, t, p, r, k); if k < 3 { lemma_mem_cells(f, main, t, p, r, k + 1); } else { lemma_mem_cells(f, main, t, p, r, 0); vstd::arithmetic::div_mod::lemma_small_mod((r + 1) as nat, main.nr() as nat); }
    theorem_memory(main, m, rows, p, n1, n2, mh, rh, rap, t, j);
}
/// Range check: 43 to 48.
proof fn lemma_rows_range(f: &Frame, main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, lo: int, hi: int, r: int, i: int)
    requires traces_of(main, t, m, rows, p, n1, n2, mh, rh, rap, lo, hi), shows_rows(f, main, t, r), 43 <= i < 49, 0 <= r < main.nr(), i == 45 ==> r < main.nr() - 1
    ensures congr(poly(f, &rap, shift(p), i), 0)
{
    let k = if i < 46 { i - 43 } else { i - 46 }; let j = 3 * r + k; lemma_rc_cells(f, main, t, p, r, k); if k < 2 { lemma_rc_cells(f, main, t, p, r, k + 1); } else { lemma_rc_cells(f, main, t, p, r, 0); }
    if k == 2 && r == main.nr() - 1 { vstd::arithmetic::div_mod::lemma_mod_self_0(main.nr()); theorem_range_ends(main, m, rows, p, n1, n2, mh, rh, rap, t, lo, hi); }
    else { if k == 2 { vstd::arithmetic::div_mod::lemma_small_mod((r + 1) as nat, main.nr() as nat); } theorem_range_check(main, m, rows, p, n1, n2, mh, rh, rap, t, lo, hi, j); }
}
/// The flags of a row that is not a step's are zero or the last step's; its selector is off.
proof fn lemma_idle_flags(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, r: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), rows.len() - 1 <= r < main.nr(), main.n_cols >= 34
    ensures forall|k: int| 0 <= k < 15 ==> is_bit((#[trigger] main.cell(r, k))@), main.cell(r, 15)@ == 0, main.cell(r, 33)@ == 0
{
    broadcast use axiom_P; let n0 = rows.len() as int; let q = n0 - 1; let x = rows[q]; assert(valid_step(m, x)); assert(row_records(main, q, m, x, q + 1 == rows.len())); let w = word(m[x.pc as int]); assert(w >= 0); lemma_flag_bits(w);
    assert(filler(main, r, n0, n1, mh, rh)); assert(plain(15) && plain(33));
    assert forall|k: int| 0 <= k < 15 implies is_bit((#[trigger] main.cell(r, k))@) by { assert(plain(k)); assert(main.cell(q, k)@ == bit(w, k)); assert(is_bit(bit(w, k))); if blank(main, r) { assert(main.cell(r, k)@ == 0); } else { assert(main.cell(r, k) == main.cell(q, k)); } }
    if blank(main, r) { assert(main.cell(r, 15)@ == 0 && main.cell(r, 33)@ == 0); } else { assert(main.cell(r, 15) == main.cell(q, 15) && main.cell(r, 33) == main.cell(q, 33)); }
}
/// A frame at a step row shows what the row records.
proof fn lemma_frame_records(f: &Frame, main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, r: int)
    requires run_ok(rows, m, p), all_recorded(main, m, rows), shows_rows(f, main, t, r), t.n_cols == 18, main.n_cols >= 34, 0 <= r < rows.len() - 1, rows.len() <= main.nr()
    ensures records(f, m, rows[r], rows[r + 1]), cur(f, 15) == 0, cur(f, 33) == 1
{
    let (x, y) = (rows[r], rows[r + 1]); assert(row_records(main, r, m, x, r + 1 == rows.len())); assert(row_records(main, r + 1, m, y, r + 2 == rows.len())); vstd::arithmetic::div_mod::lemma_small_mod((r + 1) as nat, main.nr() as nat);
    assert forall|c: int| 0 <= c < 34 implies #[trigger] cur(f, c) == main.cell(r, c)@ && nxt(f, c) == main.cell(r + 1, c)@ by { lemma_main_cell(f, main, t, r, c); }
    let w = word(m[x.pc as int]); assert forall|k: int| 0 <= k < 15 implies #[trigger] cur(f, k) == bit(w, k) by { assert(main.cell(r, k)@ == bit(w, k)); }
    let s = seq![cur(f, 9), cur(f, 15), cur(f, 16), cur(f, 17), cur(f, 18), cur(f, 19), cur(f, 20), cur(f, 21), cur(f, 22), cur(f, 23), cur(f, 24), cur(f, 25), cur(f, 26), cur(f, 27), cur(f, 28), cur(f, 29), cur(f, 30), cur(f, 31), cur(f, 32), cur(f, 33)];
}
/// Flags and steps: 0 to 30.
proof fn lemma_rows_step(f: &Frame, main: TraceTable, t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, size: int, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, lo: int, hi: int, r: int, i: int)
    requires cairo_run(rows, m, p, size), traces_of(main, t, m, rows, p, n1, n2, mh, rh, rap, lo, hi), shows_rows(f, main, t, r), 0 <= i < 31, 0 <= r < main.nr()
    ensures congr(poly(f, &rap, shift(p), i), 0)
{
    broadcast use axiom_P; let n0 = rows.len() as int; assert(n0 <= main.nr());
    if r < n0 - 1 {
        lemma_frame_records(f, main, t, m, rows, p, r); assert(valid_step(m, rows[r])); assert(steps_on(m, rows, r)); theorem_step(f, m, rows[r], rows[r + 1]);
        if i < 15 { assert(cur(f, i) * (cur(f, i) - 1) == 0); } else if i >= 16 { let e = step_poly(f, i); assert(congr(e, 0)); assert(e * 1 == e); }
    } else {
        lemma_idle_flags(main, m, rows, p, n1, n2, mh, rh, r); lemma_main_cell(f, main, t, r, i); lemma_main_cell(f, main, t, r, 33);
        if i < 15 { let b = cur(f, i); assert(is_bit(main.cell(r, i)@)); assert(b * (b - 1) == 0) by (nonlinear_arith) requires is_bit(b); } else if i >= 16 { let e = step_poly(f, i); assert(e * 0 == 0); }
    }
}
pub open spec fn limb_at(c: Seq<FE>, j: int) -> int { c[34 + j]@ }
/// Eight limbs of a number below 2^128 add up to it.
proof fn lemma_limbs(c: Seq<FE>, x: int) requires 0 <= x < ipow(0x1_0000, 8), forall|j: int| 0 <= j < 8 ==> congr(#[trigger] limb_at(c, j), x / ipow(0x1_0000, j as nat) % 0x1_0000) ensures congr(limbs(c), x)
{
    theorem_recompose(x, 8); vstd::arithmetic::div_mod::lemma_small_mod(x as nat, ipow(0x1_0000, 8) as nat);
    assert(ipow(0x1_0000, 0) == 1); assert(ipow(0x1_0000, 1) == 0x1_0000) by (compute); assert(ipow(0x1_0000, 2) == 0x1_0000_0000) by (compute); assert(ipow(0x1_0000, 3) == 0x1_0000_0000_0000) by (compute); assert(ipow(0x1_0000, 4) == 0x1_0000_0000_0000_0000) by (compute); assert(ipow(0x1_0000, 5) == 0x1_0000_0000_0000_0000_0000) by (compute); assert(ipow(0x1_0000, 6) == 0x1_0000_0000_0000_0000_0000_0000) by (compute); assert(ipow(0x1_0000, 7) == 0x1_0000_0000_0000_0000_0000_0000_0000) by (compute);
    lemma_limb_sum(c, x, 7);
    assert(c[34]@ == limb_at(c, 0) && c[35]@ == limb_at(c, 1) && c[36]@ == limb_at(c, 2) && c[37]@ == limb_at(c, 3) && c[38]@ == limb_at(c, 4) && c[39]@ == limb_at(c, 5) && c[40]@ == limb_at(c, 6) && c[41]@ == limb_at(c, 7));
    reveal_with_fuel(limbs_to, 9); assert(limbs_to(c, 8) == limbs(c));
}
pub open spec fn limbs_to(c: Seq<FE>, n: nat) -> int decreases n { if n == 0 { 0 } else { limbs_to(c, (n - 1) as nat) + limb_at(c, n - 1) * ipow(0x1_0000, (n - 1) as nat) } }
proof fn lemma_limb_sum(c: Seq<FE>, x: int, k: int) requires 0 <= k < 8, x >= 0, forall|j: int| 0 <= j < 8 ==> congr(#[trigger] limb_at(c, j), x / ipow(0x1_0000, j as nat) % 0x1_0000) ensures congr(limbs_to(c, (k + 1) as nat), limbs_value(x, (k + 1) as nat)) decreases k {
    if k > 0 { lemma_limb_sum(c, x, k - 1); } let b = ipow(0x1_0000, k as nat); assert(congr(limb_at(c, k), x / ipow(0x1_0000, k as nat) % 0x1_0000)); let d = x / b % 0x1_0000; lemma_congr_mul(limb_at(c, k), d, b, b); lemma_congr_add(limbs_to(c, k as nat), limbs_value(x, k as nat), limb_at(c, k) * b, d * b);
}
/// The limbs of a row add up to its value.
proof fn lemma_row_limbs(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, size: int, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, c: Seq<FE>, r: int)
    requires cairo_run(rows, m, p, size), main_of(main, m, rows, p, n1, n2, mh, rh), rc_range(p) is Some, main.n_cols == 43, limb_rows(main, m, rc_range(p).unwrap(), rows.len() as int), 0 <= r < main.nr(), c.len() >= 43, forall|k: int| 34 <= k < 43 ==> (#[trigger] c[k])@ == main.cell(r, k)@
    ensures congr(limbs(c) - c[42]@, 0) decreases r
{
    broadcast use axiom_P; let n0 = rows.len() as int; let s = rc_range(p).unwrap();
    if r >= n0 {
        assert(filler(main, r, n0, n1, mh, rh)); let q = n0 - 1;
        if blank(main, r) { assert forall|k: int| 34 <= k < 43 implies (#[trigger] c[k])@ == 0 by { assert(plain(k)); assert(main.cell(r, k)@ == 0); } }
        else { assert forall|k: int| 34 <= k < 43 implies (#[trigger] c[k])@ == main.cell(q, k)@ by { assert(plain(k)); assert(main.cell(r, k) == main.cell(q, k)); } lemma_row_limbs(main, m, rows, p, size, n1, n2, mh, rh, c, q); }
    } else if r < s.end - s.start {
        let a = s.start + r; let x = rep(m[a]); assert(main.cell(r, RC_VALUE as int) == m[s.start + r]); assert(c[42]@ == m[a]@); vstd::arithmetic::div_mod::lemma_mod_twice(m[a]@, P());
        assert forall|j: int| 0 <= j < 8 implies congr(#[trigger] limb_at(c, j), x / ipow(0x1_0000, j as nat) % 0x1_0000) by { assert(c[34 + j]@ == main.cell(r, RC_0 + j)@); assert(congr(main.cell(r, RC_0 + j)@, rep(m[s.start + r]) / ipow(0x1_0000, (RC_0 + j - RC_0) as nat) % 0x1_0000)); }
        lemma_limbs(c, x); assert(congr(limbs(c), c[42]@)); lemma_zero(limbs(c), c[42]@);
    } else { assert forall|k: int| 34 <= k < 43 implies (#[trigger] c[k])@ == 0 by { assert(main.cell(r, k)@ == 0); } }
}
