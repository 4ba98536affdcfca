//@ include fe.rs
//@ include num.rs
//@ include map.rs
//@ include uint.rs
//@ include iter.rs
//@ consts cairo/air.rs
//@ consts cairo/execution_trace.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/cairo_mem.rs CairoMemory
//@ item starks/trace.rs TraceTable
//@ include table.rs
//@ use c08 TraceTable::last_row
//@ raw
pub proof fn lemma_next_rep(a: FE, b: FE) requires b@ == a@ + 1, rep(a) + 1 < P() ensures rep(b) == rep(a) + 1
{ broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_add_mod_noop(a@, 1, P()); vstd::arithmetic::div_mod::lemma_small_mod(1, P() as nat); vstd::arithmetic::div_mod::lemma_small_mod((rep(a) + 1) as nat, P() as nat); }
/// h lists, in order, the values above codelen and below `lim` that s skips after its first.
pub open spec fn holes_upto(s: Seq<FE>, h: Seq<FE>, codelen: int, lim: int) -> bool {
    (forall|i: int| 0 <= i < h.len() ==> rep(s[0]) < rep(#[trigger] h[i]) < lim && rep(h[i]) > codelen && !listed(s, rep(h[i])))
    && (forall|v: int| rep(s[0]) < v < lim && v > codelen && !listed(s, v) ==> #[trigger] listed(h, v))
    && (forall|i: int, j: int| 0 <= i < j < h.len() ==> rep(h[i]) < rep(h[j]))
}
pub proof fn lemma_diff(a: int, b: int, k: int) ensures congr(a - b, k) == congr(a, b + k)
{ broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_mod_equivalence(a, b + k, P()); vstd::arithmetic::div_mod::lemma_mod_equivalence(a - b, k, P()); }
/// Two representatives in order are equal, one apart or further apart, as their difference tells.
pub proof fn lemma_gap_size(a: FE, b: FE) requires rep(b) <= rep(a)
    ensures congr(a@ - b@, 0) == (rep(a) == rep(b)), congr(a@ - b@, 1) == (rep(a) == rep(b) + 1)
{
    broadcast use axiom_P;
    lemma_diff(a@, b@, 0); lemma_diff(a@, b@, 1);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(b@, 1, P());
    vstd::arithmetic::div_mod::lemma_small_mod(1, P() as nat);
    if rep(b) + 1 < P() { vstd::arithmetic::div_mod::lemma_small_mod((rep(b) + 1) as nat, P() as nat); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(P()); assert(rep(a) < P()); }
}
pub proof fn lemma_advance(s: Seq<FE>, h: Seq<FE>, codelen: int, lim: int, to: int)
    requires holes_upto(s, h, codelen, lim), lim <= to, forall|v: int| lim <= v < to ==> v <= codelen || #[trigger] listed(s, v)
    ensures holes_upto(s, h, codelen, to)
{}
pub proof fn lemma_between(s: Seq<FE>, j: int, v: int)
    requires sorted_reps(s), 0 <= j < s.len(), v < rep(s[j]), j > 0 ==> rep(s[j - 1]) < v, j == 0 ==> rep(s[0]) < v
    ensures !listed(s, v)
{ if listed(s, v) { let i = choose|i: int| 0 <= i < s.len() && rep(#[trigger] s[i]) == v; if i >= j { assert(rep(s[j]) <= rep(s[i])); } else { assert(rep(s[i]) <= rep(s[j - 1])); } } }
pub proof fn lemma_holes_push(s: Seq<FE>, h: Seq<FE>, codelen: int, x: FE)
    requires holes_upto(s, h, codelen, rep(x)), !listed(s, rep(x)), rep(s[0]) < rep(x)
    ensures rep(x) > codelen ==> holes_upto(s, h.push(x), codelen, rep(x) + 1), rep(x) <= codelen ==> holes_upto(s, h, codelen, rep(x) + 1)
{
    let b = h.push(x);
    assert forall|v: int| rep(s[0]) < v < rep(x) + 1 && v > codelen && !listed(s, v) && rep(x) > codelen implies #[trigger] listed(b, v) by {
        if v < rep(x) { assert(listed(h, v)); let i = choose|i: int| 0 <= i < h.len() && rep(#[trigger] h[i]) == v; assert(rep(b[i]) == v); } else { assert(rep(b[h.len() as int]) == v); } }
    assert forall|i: int| 0 <= i < b.len() && rep(x) > codelen implies rep(s[0]) < rep(#[trigger] b[i]) < rep(x) + 1 && rep(b[i]) > codelen && !listed(s, rep(b[i])) by { if i < h.len() { assert(b[i] == h[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies rep(b[i]) < rep(b[j]) by { assert(b[i] == h[i]); if j < h.len() { assert(b[j] == h[j]); } }
}
pub proof fn lemma_stack(a: TraceTable, b: TraceTable, pad: Seq<FE>, k: int, g: spec_fn(int, int) -> FE)
    requires a.wf(), filled(pad, a.n_cols as int, k, 0, g), b.n_cols == a.n_cols, b.table@ == a.table@ + pad
    ensures grows(a, b, k), forall|i: int, c: int| 0 <= i < k && 0 <= c < a.n_cols ==> #[trigger] b.cell(a.nr() + i, c) == g(i, c)
{
    let n = a.n_cols as int; let rows = a.nr();
    assert(a.table.len() as int == a.table@.len());
    assert(b.table.len() as int == b.table@.len());
    assert((rows + k) * n == rows * n + k * n) by (nonlinear_arith);
    assert(rows >= 0) by (nonlinear_arith) requires rows * n >= 0, n > 0;
    lemma_rows(rows + k, n);
    assert forall|r: int, c: int| 0 <= r < a.nr() && 0 <= c < a.n_cols implies #[trigger] b.cell(r, c) == a.cell(r, c) by { lemma_idx(r, c, rows, n); }
    assert forall|i: int, c: int| 0 <= i < k && 0 <= c < a.n_cols implies #[trigger] b.cell(a.nr() + i, c) == g(i, c) by {
        lemma_idx(i, c, k, n); assert((rows + i) * n == rows * n + i * n) by (nonlinear_arith); assert(gcell(pad, n, i, c) == g(i, c)); }
}
//@ fn cairo/execution_trace.rs pad_with_last_row {"types": {"vo_0": "Vec<FE>"}}
requires old(trace).wf(), old(trace).nr() > 0,
ensures grows(*old(trace), *final(trace), number_rows as int),
    forall|i: int, c: int| 0 <= i < number_rows && 0 <= c < old(trace).n_cols ==> #[trigger] final(trace).cell(old(trace).nr() + i, c) == old(trace).cell(old(trace).nr() - 1, c),
//@ let last_row
let ghost l = last_row@;
let ghost n = trace.n_cols as int;
let ghost g = |r: int, c: int| l[c];
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == number_rows, l == last_row@, l.len() == n, filled(vo_0@, n, vi_0 as int, 0, g), g == (|r: int, c: int| l[c]),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == n, l == last_row@, l.len() == n, filled(vo_0@, n, vj_0 as int, vi_1 as int, g), g == (|r: int, c: int| l[c]), vi_0 == vj_0 + 1,
decreases vn_1 - vi_1
//@ loopstart 1
proof { lemma_push(vo_0@, n, vj_0 as int, vi_1 as int, g, l[vi_1 as int]); }
//@ loopend 0
proof { lemma_next_row(vo_0@, n, vj_0 as int, g); }
//@ let pad
let ghost p = pad@;
//@ bodyend
proof { lemma_stack(*old(trace), *trace, p, number_rows as int, g); }
//@ fn cairo/execution_trace.rs pad_with_last_row_and_zeros {"types": {"vo_1": "Vec<FE>"}}
requires old(trace).wf(), old(trace).nr() > 0, forall|i: int| 0 <= i < zero_pad_columns@.len() ==> (#[trigger] zero_pad_columns@[i]) < old(trace).n_cols,
ensures grows(*old(trace), *final(trace), number_rows as int),
    forall|i: int, j: int| 0 <= i < number_rows && 0 <= j < zero_pad_columns@.len() ==> (#[trigger] final(trace).cell(old(trace).nr() + i, #[trigger] zero_pad_columns@[j] as int))@ == 0,
    forall|i: int, c: int| 0 <= i < number_rows && 0 <= c < old(trace).n_cols && !zero_pad_columns@.contains(c as usize) ==> #[trigger] final(trace).cell(old(trace).nr() + i, c) == old(trace).cell(old(trace).nr() - 1, c),
//@ let last_row
let ghost l0 = last_row@;
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == zero_pad_columns@.len(), last_row@.len() == l0.len(), l0.len() == trace.n_cols, forall|i: int| 0 <= i < zero_pad_columns@.len() ==> (#[trigger] zero_pad_columns@[i]) < trace.n_cols,
    forall|j: int| 0 <= j < vi_0 ==> last_row@[#[trigger] zero_pad_columns@[j] as int]@ == 0,
    forall|c: int| 0 <= c < l0.len() && !zero_pad_columns@.contains(c as usize) ==> #[trigger] last_row@[c] == l0[c],
decreases vn_0 - vi_0
//@ after 0
let ghost l = last_row@;
let ghost n = trace.n_cols as int;
let ghost g = |r: int, c: int| l[c];
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == number_rows, last_row@.len() == trace.n_cols, filled(vo_1@, trace.n_cols as int, vi_1 as int, 0, |r: int, c: int| last_row@[c]),
decreases vn_1 - vi_1
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == trace.n_cols, last_row@.len() == trace.n_cols, filled(vo_1@, trace.n_cols as int, vj_1 as int, vi_2 as int, |r: int, c: int| last_row@[c]), vi_1 == vj_1 + 1,
decreases vn_2 - vi_2
//@ loopstart 2
proof { lemma_push(vo_1@, trace.n_cols as int, vj_1 as int, vi_2 as int, |r: int, c: int| last_row@[c], last_row@[vi_2 as int]); }
//@ loopend 1
proof { lemma_next_row(vo_1@, trace.n_cols as int, vj_1 as int, |r: int, c: int| last_row@[c]); }
//@ let pad
let ghost p = pad@;
let ghost l = last_row@;
//@ bodyend
proof {
    lemma_stack(*old(trace), *trace, p, number_rows as int, |r: int, c: int| l[c]);
    assert forall|i: int, j: int| 0 <= i < number_rows && 0 <= j < zero_pad_columns@.len() implies (#[trigger] trace.cell(old(trace).nr() + i, #[trigger] zero_pad_columns@[j] as int))@ == 0 by { assert(l[zero_pad_columns@[j] as int]@ == 0); }
}
//@ fn cairo/execution_trace.rs add_pub_memory_dummy_accesses
requires old(main_trace).wf(), old(main_trace).nr() > 0, old(main_trace).n_cols > OFF_OP1,
ensures grows(*old(main_trace), *final(main_trace), pub_memory_len as int / 4 + 1),
    forall|i: int, c: int| 0 <= i <= pub_memory_len as int / 4 && FRAME_PC <= c <= FRAME_OP1 ==> (#[trigger] final(main_trace).cell(old(main_trace).nr() + i, c))@ == 0,
    forall|i: int, c: int| 0 <= i <= pub_memory_len as int / 4 && 0 <= c < old(main_trace).n_cols && !(FRAME_PC <= c <= FRAME_OP1) ==> #[trigger] final(main_trace).cell(old(main_trace).nr() + i, c) == old(main_trace).cell(old(main_trace).nr() - 1, c),
//@ bodystart
assert(pub_memory_len >> 2 == pub_memory_len / 4 && pub_memory_len >> 2 <= 0x3fff_ffff_ffff_ffff) by (bit_vector);
//@ fn cairo/execution_trace.rs get_memory_holes {"methods": {"into": "fn vx_uint_from"}, "types": {"memory_holes": "Vec<FE>"}}
requires sorted_addrs@.len() > 0, sorted_reps(sorted_addrs@),
ensures
    forall|i: int| 0 <= i < ret@.len() ==> rep(sorted_addrs@[0]) < rep(#[trigger] ret@[i]) < rep(sorted_addrs@.last()) && rep(ret@[i]) > codelen && !listed(sorted_addrs@, rep(ret@[i])),
    forall|v: int| rep(sorted_addrs@[0]) < v < rep(sorted_addrs@.last()) && v > codelen && !listed(sorted_addrs@, v) ==> #[trigger] listed(ret@, v),
    forall|i: int, j: int| 0 <= i < j < ret@.len() ==> rep(ret@[i]) < rep(ret@[j]),
//@ bodystart
let ghost s = sorted_addrs@;
broadcast use axiom_P;
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == s.len(), s == sorted_addrs@, s.len() > 0, sorted_reps(s), *prev_addr == (if vi_0 == 0 { s[0] } else { s[vi_0 - 1] }),
    holes_upto(s, memory_holes@, codelen as int, rep(*prev_addr) + 1), listed(s, rep(*prev_addr)),
decreases vn_0 - vi_0
//@ loopstart 0
let ghost pv = *prev_addr;
let ghost m0 = memory_holes@;
proof { assert(rep(s[vi_0 as int]) < P()); assert(rep(pv) >= 0); assert(rep(pv) <= rep(s[vi_0 as int])); assert(listed(s, rep(s[vi_0 as int]))); lemma_gap_size(s[vi_0 as int], pv);
    let a = rep(s[vi_0 as int]);
    assert(a == rep(pv) || a == rep(pv) + 1 || a <= codelen ==> forall|v: int| rep(pv) + 1 <= v < a + 1 ==> v <= codelen || #[trigger] listed(s, v));
    if a == rep(pv) || a == rep(pv) + 1 || a <= codelen { lemma_advance(s, m0, codelen as int, rep(pv) + 1, a + 1); } }
//@ loop 1
invariant vi_0 == vj_0 + 1, vj_0 < s.len(), *addr == s[vj_0 as int], pv == *prev_addr, pv == (if vj_0 == 0 { s[0] } else { s[vj_0 - 1] }), s == sorted_addrs@, sorted_reps(s), 0 <= rep(pv) < rep(hole_addr) <= rep(*addr) < P(),
    holes_upto(s, memory_holes@, codelen as int, rep(hole_addr)),
decreases rep(*addr) - rep(hole_addr)
//@ let hole_addr
proof { lemma_next_rep(pv, hole_addr); }
//@ loopstart 1
let ghost h0 = hole_addr;
proof { lemma_between(s, vj_0 as int, rep(h0)); lemma_holes_push(s, memory_holes@, codelen as int, h0); }
//@ loopend 1
proof { lemma_next_rep(h0, hole_addr); }
//@ loopend 0
proof { let a = rep(s[vj_0 as int]); if !(a == rep(pv) || a == rep(pv) + 1 || a <= codelen) { lemma_advance(s, memory_holes@, codelen as int, a, a + 1); } }
//@ fn cairo/execution_trace.rs fill_memory_holes {"params": [null, "memory_holes: &[FE]"]}
requires old(trace).wf(), old(trace).nr() > 0, old(trace).n_cols > OFF_OP1, memory_holes@.len() <= usize::MAX - 4,
ensures grows(*old(trace), *final(trace), (memory_holes@.len() as int + 3) / 4),
    forall|i: int, k: int| 0 <= i < (memory_holes@.len() as int + 3) / 4 && 0 <= k < 4 ==> #[trigger] final(trace).cell(old(trace).nr() + i, FRAME_PC + k) == (if 4 * i + k < memory_holes@.len() { memory_holes@[4 * i + k] } else { old(trace).cell(old(trace).nr() - 1, FRAME_PC + k) }),
    forall|i: int, c: int| 0 <= i < (memory_holes@.len() as int + 3) / 4 && 0 <= c < old(trace).n_cols && !(FRAME_PC <= c <= FRAME_OP1_ADDR) ==> #[trigger] final(trace).cell(old(trace).nr() + i, c) == old(trace).cell(old(trace).nr() - 1, c),
//@ let last_row
let ghost l = last_row@;
let ghost n = trace.n_cols as int;
let ghost h = memory_holes@;
let ghost t0 = trace.table@;
let ghost rows0 = trace.nr();
let ghost g = |r: int, c: int| if r < rows0 { gcell(t0, n, r, c) } else if FRAME_PC <= c <= FRAME_OP1_ADDR && 4 * (r - rows0) + (c - FRAME_PC) < h.len() { h[4 * (r - rows0) + (c - FRAME_PC)] } else { l[c] };
proof { assert(trace.table.len() as int == t0.len()); assert(rows0 >= 0); assert(filled(t0, n, rows0, 0, g)); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == padding_size, padding_size as int == (h.len() + 3) / 4, h == memory_holes@, l == last_row@, l.len() == n, n == trace.n_cols, n > OFF_OP1, memory_holes_iter.wf(), memory_holes_iter.s@ == h,
    memory_holes_iter.i as int == (if 4 * vi_0 < h.len() { 4 * vi_0 } else { h.len() as int }), rows0 >= 0,
    filled(trace.table@, n, rows0 + vi_0, 0, g),
    g == (|r: int, c: int| if r < rows0 { gcell(t0, n, r, c) } else if FRAME_PC <= c <= FRAME_OP1_ADDR && 4 * (r - rows0) + (c - FRAME_PC) < h.len() { h[4 * (r - rows0) + (c - FRAME_PC)] } else { l[c] }),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == 4, addr_cols@ == seq![FRAME_PC, FRAME_DST_ADDR, FRAME_OP0_ADDR, FRAME_OP1_ADDR], padding_row@.len() == n, l.len() == n, n > OFF_OP1, memory_holes_iter.wf(), memory_holes_iter.s@ == h, h == memory_holes@,
    memory_holes_iter.i as int == (if 4 * vj_0 + vi_1 < h.len() { 4 * vj_0 + vi_1 } else { h.len() as int }),
    forall|c: int| 0 <= c < n ==> #[trigger] padding_row@[c] == (if FRAME_PC <= c < FRAME_PC + vi_1 && 4 * vj_0 + (c - FRAME_PC) < h.len() { h[4 * vj_0 + (c - FRAME_PC)] } else { l[c] }),
decreases vn_1 - vi_1
//@ after 1
proof {
    let t1 = trace.table@;
    lemma_append(t1, n, rows0 + vj_0, 0, g, padding_row@);
    lemma_next_row(t1 + padding_row@, n, rows0 + vj_0, g);
}
//@ after 0
proof {
    let rows = rows0 + vn_0;
    lemma_rows(rows, n);
    assert(trace.table.len() as int == trace.table@.len());
    assert forall|r: int, c: int| 0 <= r < rows0 && 0 <= c < n implies #[trigger] trace.cell(r, c) == old(trace).cell(r, c) by { assert(gcell(trace.table@, n, r, c) == g(r, c)); }
    assert forall|i: int, c: int| 0 <= i < vn_0 && 0 <= c < n implies #[trigger] trace.cell(rows0 + i, c) == g(rows0 + i, c) by { assert(gcell(trace.table@, n, rows0 + i, c) == g(rows0 + i, c)); }
}
