// ---- prelude: the memory columns of an honest trace satisfy their equations ------------------------------
/// The memory of a run: no cell below address 1, the public cells among its own, the program's first cell public.
pub open spec fn memory_ok(m: Map<int, FE>, p: &PublicInputs) -> bool {
    &&& forall|a: int| #[trigger] m.dom().contains(a) ==> a >= 1
    &&& forall|a: int| #[trigger] p.public_memory@.dom().contains(a) ==> m.dom().contains(a) && congr(p.public_memory@[a]@, m[a]@)
    &&& public_ok(p) && segments_apart(p) && p.public_memory@.dom().finite() && program_len(out_range(p), p.public_memory@.dom().len() as int) >= 1
}
/// The finished main trace of a run.
pub open spec fn main_of(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>) -> bool {
    run_ok(rows, m, p) && main.wf() && all_recorded(main, m, rows) && main_rows(main, rows.len() as int, n1, n2, p, mh, rh)
}
pub open spec fn stored(main: TraceTable, n0: int, p: PublicInputs, m: Map<int, FE>, a: FE, v: FE) -> bool { m.dom().contains(rep(a)) && congr(v@, m[rep(a)]@) && reached(main, n0, p, rep(a)) }
pub open spec fn at_zero(a: FE, v: FE) -> bool { a@ == 0 && v@ == 0 }
/// The access at position j of the list is the one that fills hole j - 4 n1.
pub open spec fn fills_at(a: FE, j: int, n1: int, mh: Seq<FE>) -> bool { 0 <= j - 4 * n1 < mh.len() && a == mh[j - 4 * n1] }
pub open spec fn access_ok(main: TraceTable, n0: int, n1: int, p: PublicInputs, m: Map<int, FE>, mh: Seq<FE>, a: FE, v: FE, j: int) -> bool { at_zero(a, v) || stored(main, n0, p, m, a, v) || fills_at(a, j, n1, mh) }
proof fn lemma_recorded_access(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, r: int, k: int)
    requires run_ok(rows, m, p), all_recorded(main, m, rows), 0 <= r < rows.len(), 0 <= k < 4
    ensures stored(main, rows.len() as int, p, m, addr(main, r, k), val(main, r, k)), touched(main, rows.len() as int, rep(addr(main, r, k)))
{
    broadcast use axiom_P; let t = rows[r]; assert(valid_step(m, t)); assert(row_records(main, r, m, t, r + 1 == rows.len())); let a = addr(main, r, k)@;
    assert(m.dom().contains(a) && congr(val(main, r, k)@, m[a]@)) by { if k == 0 {} else if k == 1 {} else if k == 2 {} else {} }
    assert(0 <= a < 0x1000_0000_0000_0000); vstd::arithmetic::div_mod::lemma_small_mod(a as nat, P() as nat); assert(rep(addr(main, r, k)) == a);
}
pub proof fn lemma_access(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, r: int, k: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), 0 <= r < main.nr(), 0 <= k < 4
    ensures access_ok(main, rows.len() as int, n1, p, m, mh, addr(main, r, k), val(main, r, k), 4 * r + k)
{
    let n0 = rows.len() as int;
    if r < n0 { lemma_recorded_access(main, m, rows, p, r, k); }
    else { assert(filler(main, r, n0, n1, mh, rh)); assert(mem_cell(main, r, k, n0, n1, mh)); if last_access(main, r, k, n0) { lemma_recorded_access(main, m, rows, p, n0 - 1, k); } }
}
/// Position j of the flattened columns.
proof fn lemma_flat_at(t: TraceTable, cols: Seq<int>, r: int, k: int) requires 0 <= r < t.nr(), 0 <= k < cols.len() ensures 0 <= cols.len() * r + k < flat(t, cols).len(), flat(t, cols)[cols.len() * r + k] == t.cell(r, cols[k]), flat(t, cols).len() == cols.len() * t.nr()
{ let w = cols.len() as int; lemma_idx(r, k, t.nr(), w); assert(w * r == r * w) by (nonlinear_arith); assert(w * t.nr() == t.nr() * w) by (nonlinear_arith); let i = r * w + k; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, w, r, k); }
proof fn lemma_access_col(k: int) requires 0 <= k < 4 ensures access_cols().len() == 4, value_cols().len() == 4, access_cols()[k] == FRAME_PC + k, value_cols()[k] == FRAME_INST + k { if k == 0 {} else if k == 1 {} else if k == 2 {} else {} }
proof fn lemma_accesses(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, j: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), 0 <= j < 4 * main.nr()
    ensures flat(main, access_cols()).len() == 4 * main.nr(), flat(main, value_cols()).len() == 4 * main.nr(), flat(main, access_cols())[j] == addr(main, j / 4, j % 4), flat(main, value_cols())[j] == val(main, j / 4, j % 4), access_ok(main, rows.len() as int, n1, p, m, mh, flat(main, access_cols())[j], flat(main, value_cols())[j], j)
{
    let (r, k) = (j / 4, j % 4); lemma_access_col(0); lemma_flat_at(main, access_cols(), r, k); lemma_flat_at(main, value_cols(), r, k); lemma_access(main, m, rows, p, n1, n2, mh, rh, r, k);
    lemma_access_col(k); assert(4 * r + k == j);
}
pub open spec fn all_accesses_ok(main: TraceTable, n0: int, n1: int, p: PublicInputs, m: Map<int, FE>, mh: Seq<FE>, a2: Seq<FE>, v2: Seq<FE>) -> bool { a2.len() == v2.len() && forall|j: int| 0 <= j < a2.len() ==> access_ok(main, n0, n1, p, m, mh, #[trigger] a2[j], v2[j], j) }
/// With the public memory in place of the last dummy accesses, every access still reads what the memory holds.
proof fn lemma_public_accesses(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, a2: Seq<FE>, v2: Seq<FE>)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), memory_ok(m, &p), with_public(flat(main, access_cols()), flat(main, value_cols()), &p, a2, v2)
    ensures all_accesses_ok(main, rows.len() as int, n1, p, m, mh, a2, v2), a2.len() == 4 * main.nr()
{
    broadcast use axiom_P; let n0 = rows.len() as int; let (a, v) = (flat(main, access_cols()), flat(main, value_cols())); let n = p.public_memory@.dom().len() as int; let k = a.len() - n; assert(1 <= main.nr()); lemma_accesses(main, m, rows, p, n1, n2, mh, rh, 0);
    assert forall|j: int| 0 <= j < a2.len() implies access_ok(main, n0, n1, p, m, mh, #[trigger] a2[j], v2[j], j) by {
        lemma_accesses(main, m, rows, p, n1, n2, mh, rh, j);
        if j < k { assert(a2[j] == a[j] && v2[j] == v[j]); } else { let b = pub_addr(out_range(&p), n, j - k); assert(a2[j]@ == b); assert(p.public_memory@.dom().contains(b)); lemma_pub_addr_small(out_range(&p), n, j - k); vstd::arithmetic::div_mod::lemma_small_mod(b as nat, P() as nat); assert(rep(a2[j]) == b); assert(stored(main, n0, p, m, a2[j], v2[j])); }
    }
}
/// Two accesses to one address read one value.
proof fn lemma_one_value(main: TraceTable, n0: int, n1: int, p: PublicInputs, m: Map<int, FE>, mh: Seq<FE>, a2: Seq<FE>, v2: Seq<FE>, i: int, j: int)
    requires all_accesses_ok(main, n0, n1, p, m, mh, a2, v2), memory_ok(m, &p), skips(main, n0, p, mh), 0 <= i < a2.len(), 0 <= j < a2.len(), rep(a2[i]) == rep(a2[j])
    ensures congr(v2[i]@, v2[j]@)
{
    broadcast use axiom_P; let (a, b) = (a2[i], a2[j]); assert(access_ok(main, n0, n1, p, m, mh, a, v2[i], i) && access_ok(main, n0, n1, p, m, mh, b, v2[j], j)); vstd::arithmetic::div_mod::lemma_small_mod(0, P() as nat);
    let (x, y) = (i - 4 * n1, j - 4 * n1);
    if fills_at(a, i, n1, mh) && fills_at(b, j, n1, mh) { if x < y { assert(rep(mh[x]) < rep(mh[y])); } else if y < x { assert(rep(mh[y]) < rep(mh[x])); } }
    else if fills_at(a, i, n1, mh) { assert(rep(mh[x]) > 0 && !reached(main, n0, p, rep(mh[x]))); } else if fills_at(b, j, n1, mh) { assert(rep(mh[y]) > 0 && !reached(main, n0, p, rep(mh[y]))); }
}
// ---- the sorted list has no gap ---------------------------------------------------------------------------
/// The public memory and the rows behind n2 lie apart.
proof fn lemma_tail_fits(main: TraceTable, n2: int, n: int, r: int) requires main.nr() - n2 >= n / 4 + 1, n >= 0, r < n2 ensures 4 * r + 3 < 4 * main.nr() - n {}
/// An access at a row before n2 is among the cells the public memory leaves alone.
proof fn lemma_kept(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, a2: Seq<FE>, v2: Seq<FE>, r: int, k: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), with_public(flat(main, access_cols()), flat(main, value_cols()), &p, a2, v2), 0 <= r < n2, 0 <= k < 4
    ensures listed(a2, rep(addr(main, r, k)))
{
    let n = p.public_memory@.dom().len() as int; lemma_tail_fits(main, n2, n, r); let j = 4 * r + k; assert(j / 4 == r && j % 4 == k); lemma_accesses(main, m, rows, p, n1, n2, mh, rh, j);
    assert(a2[j] == flat(main, access_cols())[j]); assert(rep(a2[j]) == rep(addr(main, r, k)));
}
proof fn lemma_public_listed(main: TraceTable, m: Map<int, FE>, p: PublicInputs, a2: Seq<FE>, v2: Seq<FE>, b: int)
    requires memory_ok(m, &p), with_public(flat(main, access_cols()), flat(main, value_cols()), &p, a2, v2), p.public_memory@.dom().contains(b), p.public_memory@.dom().len() <= a2.len()
    ensures listed(a2, b)
{
    broadcast use axiom_P; let r = out_range(&p); let n = p.public_memory@.dom().len() as int; let f = |i: int| pub_addr(r, n, i);
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] f(i) != #[trigger] f(j) by {}
    assert forall|i: int| 0 <= i < n implies p.public_memory@.dom().contains(#[trigger] f(i)) by { assert(p.public_memory@.dom().contains(pub_addr(r, n, i))); }
    lemma_all_keys(p.public_memory@.dom(), n, f); let i = choose|i: int| 0 <= i < n && #[trigger] f(i) == b; let j = a2.len() - n + i;
    assert(a2[j]@ == pub_addr(r, n, j - (a2.len() - n))); lemma_pub_addr_small(r, n, i); vstd::arithmetic::div_mod::lemma_small_mod(b as nat, P() as nat); assert(rep(a2[j]) == b);
}
/// Everything reached, and every hole, is in the list.
proof fn lemma_reached_listed(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, a2: Seq<FE>, v2: Seq<FE>, v: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), memory_ok(m, &p), with_public(flat(main, access_cols()), flat(main, value_cols()), &p, a2, v2), reached(main, rows.len() as int, p, v) || listed(mh, v)
    ensures listed(a2, v)
{
    broadcast use axiom_P; let n0 = rows.len() as int; let n = p.public_memory@.dom().len() as int; assert(n0 <= n2); lemma_accesses(main, m, rows, p, n1, n2, mh, rh, 0);
    assert(n <= a2.len());
    if touched(main, n0, v) { let (r, k) = choose|r: int, k: int| 0 <= r < n0 && 0 <= k < 4 && rep(#[trigger] addr(main, r, k)) == v; lemma_kept(main, m, rows, p, n1, n2, mh, rh, a2, v2, r, k); }
    else if p.public_memory@.dom().contains(v) { lemma_public_listed(main, m, p, a2, v2, v); }
    else {
        let j = choose|j: int| 0 <= j < mh.len() && rep(#[trigger] mh[j]) == v; let (r, k) = (n1 + j / 4, j % 4); assert(hole_at(main, n1, mh, j)); assert(rep(mh[j]) > 0);
        if r >= n2 { assert(main.cell(r, FRAME_PC + k)@ == 0); vstd::arithmetic::div_mod::lemma_small_mod(0, P() as nat); assert(false); }
        lemma_kept(main, m, rows, p, n1, n2, mh, rh, a2, v2, r, k);
    }
}
/// Between two listed addresses every address is listed.
proof fn lemma_no_gap(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, a2: Seq<FE>, v2: Seq<FE>, h: int, v: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), memory_ok(m, &p), with_public(flat(main, access_cols()), flat(main, value_cols()), &p, a2, v2), listed(a2, h), 0 < v < h
    ensures listed(a2, v)
{
    broadcast use axiom_P; let n0 = rows.len() as int; lemma_public_accesses(main, m, rows, p, n1, n2, mh, rh, a2, v2); let n = p.public_memory@.dom().len() as int;
    let j = choose|j: int| 0 <= j < a2.len() && rep(#[trigger] a2[j]) == h; assert(access_ok(main, n0, n1, p, m, mh, a2[j], v2[j], j)); vstd::arithmetic::div_mod::lemma_small_mod(0, P() as nat);
    assert(pub_addr(out_range(&p), n, 0) == 1); assert(p.public_memory@.dom().contains(pub_addr(out_range(&p), n, 0))); assert(reached(main, n0, p, 1));
    let top = if reached(main, n0, p, h) { h } else { assert(fills_at(a2[j], j, n1, mh)); assert(between(main, n0, p, rep(mh[j - 4 * n1]))); let (lo, hi) = choose|lo: int, hi: int| #[trigger] reached(main, n0, p, lo) && #[trigger] reached(main, n0, p, hi) && lo < rep(mh[j - 4 * n1]) < hi; hi };
    assert(reached(main, n0, p, top) && top > v);
    if v == 1 {} else if !reached(main, n0, p, v) { assert(listed(mh, v)); }
    lemma_reached_listed(main, m, rows, p, n1, n2, mh, rh, a2, v2, v);
}
/// The pair at position i of one list is at some position of the other.
proof fn lemma_at_other(a: Seq<FE>, v: Seq<FE>, b: Seq<FE>, w: Seq<FE>, i: int) -> (j: int) requires a.len() == v.len(), b.len() == w.len(), pairs(a, v).to_multiset() == pairs(b, w).to_multiset(), 0 <= i < a.len() ensures 0 <= j < b.len(), b[j] == a[i], w[j] == v[i]
{ lemma_same_pairs(pairs(a, v), pairs(b, w), i); let j = choose|j: int| 0 <= j < b.len() && pairs(b, w)[j] == pairs(a, v)[i]; j }
pub open spec fn neighbours(sa: Seq<FE>, sv: Seq<FE>, i: int) -> bool { (rep(sa[i + 1]) == rep(sa[i]) && congr(sv[i]@, sv[i + 1]@)) || rep(sa[i + 1]) == rep(sa[i]) + 1 }
/// Neighbours in the sorted list are one apart, or one access with one value.
proof fn lemma_neighbours(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, a2: Seq<FE>, v2: Seq<FE>, sa: Seq<FE>, sv: Seq<FE>, i: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), memory_ok(m, &p), with_public(flat(main, access_cols()), flat(main, value_cols()), &p, a2, v2), pairs(sa, sv).to_multiset() == pairs(a2, v2).to_multiset(), sorted_reps(sa), sa.len() == sv.len(), sa.len() == a2.len(), 0 <= i, i + 1 < sa.len()
    ensures neighbours(sa, sv, i)
{
    broadcast use axiom_P; lemma_public_accesses(main, m, rows, p, n1, n2, mh, rh, a2, v2);
    let j = lemma_at_other(sa, sv, a2, v2, i); let k = lemma_at_other(sa, sv, a2, v2, i + 1); let (lo, hi) = (rep(sa[i]), rep(sa[i + 1])); assert(lo <= hi); assert(lo >= 0);
    if lo == hi { lemma_one_value(main, rows.len() as int, n1, p, m, mh, a2, v2, j, k); }
    else if hi > lo + 1 {
        let v = lo + 1; assert(rep(a2[k]) == hi); lemma_no_gap(main, m, rows, p, n1, n2, mh, rh, a2, v2, hi, v);
        let x = choose|x: int| 0 <= x < a2.len() && rep(#[trigger] a2[x]) == v; let y = lemma_at_other(a2, v2, sa, sv, x); assert(rep(sa[y]) == v);
        if y <= i { assert(rep(sa[y]) <= rep(sa[i])); } else { assert(rep(sa[i + 1]) <= rep(sa[y])); }
    }
}
proof fn lemma_climbs(a: FE, a2: FE, v: int, v2: int) requires (rep(a2) == rep(a) && congr(v, v2)) || rep(a2) == rep(a) + 1 ensures congr(climbs(a@, a2@), 0), congr(consistent(a@, v, a2@, v2), 0) {
    broadcast use axiom_P; let (x, y, w) = (a@ - a2@, a2@ - a@ - 1, v - v2);
    if rep(a2) == rep(a) { lemma_zero(a@, a2@); lemma_congr_mul(x, 0, y, y); assert(0 * y == 0); lemma_zero(v, v2); lemma_congr_mul(w, 0, y, y); }
    else {
        vstd::arithmetic::div_mod::lemma_mod_twice(a@, P()); vstd::arithmetic::div_mod::lemma_mod_twice(a2@, P()); assert(congr(rep(a), a@) && congr(rep(a2), a2@));
        lemma_congr_add(rep(a), a@, 1, 1); assert(congr(a2@, a@ + 1)); lemma_zero(a2@, a@ + 1); assert(y == a2@ - (a@ + 1)); lemma_congr_mul(x, x, y, 0); lemma_congr_mul(w, w, y, 0); assert(x * 0 == 0 && w * 0 == 0);
    }
}
proof fn lemma_quotient_step(s: int, fs: int, o: int, fo: int, q: int, p: int) requires congr(q * s, o), congr(p * (s * fs), o * fo), !congr(s, 0) ensures congr(fs * p - fo * q, 0)
{
    let (x, y) = (fs * p, fo * q);
    assert(p * (s * fs) == s * x) by (nonlinear_arith) requires x == fs * p; lemma_congr_mul(q * s, o, fo, fo); assert((q * s) * fo == s * y) by (nonlinear_arith) requires y == fo * q;
    lemma_congr_cancel(s, x, y); lemma_zero(x, y);
}
/// The memory equations between cells j and j + 1 of the lists.
pub open spec fn memory_step_ok(z: int, al: int, a: Seq<FE>, v: Seq<FE>, sa: Seq<FE>, sv: Seq<FE>, col: Seq<FE>, j: int) -> bool {
    congr(climbs(sa[j]@, sa[j + 1]@), 0) && congr(consistent(sa[j]@, sv[j]@, sa[j + 1]@, sv[j + 1]@), 0) && congr(mem_step(z, al, sa[j + 1]@, sv[j + 1]@, col[j + 1]@, a[j + 1]@, v[j + 1]@, col[j]@), 0)
}
/// Along the flattened columns every memory equation holds, and the last product is what the boundary demands.
pub proof fn theorem_memory(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>, rap: CairoRAPChallenges, t: TraceTable, j: int)
    requires main_of(main, m, rows, p, n1, n2, mh, rh), memory_ok(m, &p), nonzero_factors(main, &p, rap), aux_memory(main, &p, rap, t), t.nr() == main.nr(), 0 <= j, j + 1 < 4 * main.nr()
    ensures memory_step_ok(rap.z_memory@, rap.alpha_memory@, flat(main, access_cols()), flat(main, value_cols()), flat(t, span(3, 4)), flat(t, span(7, 4)), flat(t, span(11, 4)), j)
{
    let (z, al) = (rap.z_memory@, rap.alpha_memory@); assert(access_cols().len() == 4 && value_cols().len() == 4 && span(3, 4).len() == 4 && span(7, 4).len() == 4 && span(11, 4).len() == 4);
    let (a, v) = (flat(main, access_cols()), flat(main, value_cols())); let (sa, sv) = (flat(t, span(3, 4)), flat(t, span(7, 4))); let col = flat(t, span(11, 4));
    let (a2, v2) = choose|a2: Seq<FE>, v2: Seq<FE>| #[trigger] with_public(a, v, &p, a2, v2) && pairs(sa, sv).to_multiset() == pairs(a2, v2).to_multiset();
    lemma_neighbours(main, m, rows, p, n1, n2, mh, rh, a2, v2, sa, sv, j); lemma_climbs(sa[j], sa[j + 1], sv[j]@, sv[j + 1]@);
    let (so, or) = (pairs(sa, sv), pairs(a, v)); lemma_sorted_nonzero(main, &p, rap, a2, v2, sa, sv); lemma_pairs_nonzero(so, z, al, j + 1);
    assert(congr(col[j]@ * pairs_prod(so, z, al, j + 1), pairs_prod(or, z, al, j + 1))); assert(congr(col[j + 1]@ * pairs_prod(so, z, al, j + 2), pairs_prod(or, z, al, j + 2)));
    lemma_quotient_step(pairs_prod(so, z, al, j + 1), factor_at(so, z, al, j + 1), pairs_prod(or, z, al, j + 1), factor_at(or, z, al, j + 1), col[j]@, col[j + 1]@);
}
/// The accesses the public memory replaces are dummies.
pub proof fn lemma_dummies(main: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>)
    requires main_of(main, m, rows, p, n1, n2, mh, rh) ensures dummies(flat(main, access_cols()), flat(main, value_cols()), p.public_memory@.dom().len() as int)
{
    let n = p.public_memory@.dom().len() as int; let (a, v) = (flat(main, access_cols()), flat(main, value_cols())); assert(1 <= main.nr()); lemma_accesses(main, m, rows, p, n1, n2, mh, rh, 0); assert(n2 >= 1 && main.nr() - n2 >= n / 4 + 1 && n >= 0); lemma_tail_fits(main, n2, n, n2 - 1); assert(n <= a.len());
    assert forall|i: int| a.len() - n <= i < a.len() implies (#[trigger] a[i])@ == 0 && v[i]@ == 0 by {
        lemma_accesses(main, m, rows, p, n1, n2, mh, rh, i); let (r, k) = (i / 4, i % 4); if r < n2 { lemma_tail_fits(main, n2, n, r); } let (c, d) = (FRAME_PC + k, FRAME_INST + k); assert(main.cell(r, c)@ == 0 && main.cell(r, d)@ == 0); assert(a[i] == addr(main, r, k) && v[i] == val(main, r, k)); }
}
