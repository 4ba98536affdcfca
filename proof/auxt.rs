// ---- prelude: the auxiliary trace -----------------------------------------------------------------
#[verifier::external_body]
pub fn vx_splice<T>(v: &mut Vec<T>, lo: usize, hi: usize, it: Vec<T>) requires lo <= hi <= old(v)@.len()
    ensures final(v)@ == old(v)@.subrange(0, lo as int) + it@ + old(v)@.subrange(hi as int, old(v)@.len() as int) { v.splice(lo..hi, it); }
#[verifier::external_body]
pub fn vx_splice_from<T>(v: &mut Vec<T>, lo: usize, it: Vec<T>) requires lo <= old(v)@.len()
    ensures final(v)@ == old(v)@.subrange(0, lo as int) + it@ { v.splice(lo.., it); }
/// Copies a slice; every element type used here has a structural clone.
pub assume_specification<T: Clone>[<[T] as std::borrow::ToOwned>::to_owned](x: &[T]) -> (r: Vec<T>) ensures r@ == x@;
pub proof fn lemma_factor_of(z: int, a: int, al: int, v: int, x: int) requires x == z - (a + al * v) ensures x == cell_factor(a, v, z, al) {}
/// The cells of the columns `cols` of a table, row by row.
pub open spec fn flat(t: TraceTable, cols: Seq<int>) -> Seq<FE> { Seq::new((t.nr() * cols.len()) as nat, |i: int| t.cell(i / cols.len() as int, cols[i % cols.len() as int])) }
/// Pairs of an address and a value list.
pub open spec fn pairs(a: Seq<FE>, v: Seq<FE>) -> Seq<(FE, FE)> { Seq::new(a.len(), |i: int| (a[i], v[i])) }
/// The product of the factors of the first n pairs.
pub open spec fn pairs_prod(p: Seq<(FE, FE)>, z: int, al: int, n: int) -> int decreases n { if n <= 0 { 1 } else { pairs_prod(p, z, al, n - 1) * cell_factor(p[n - 1].0@, p[n - 1].1@, z, al) } }
pub open spec fn pfold(z: int, al: int) -> spec_fn((FE, FE), int) -> int { |x: (FE, FE), acc: int| acc * cell_factor(x.0@, x.1@, z, al) }
pub proof fn lemma_pfold(p: Seq<(FE, FE)>, z: int, al: int, b: int) ensures p.fold_right(pfold(z, al), b) == b * pairs_prod(p, z, al, p.len() as int) decreases p.len() {
    if p.len() > 0 {
        let d = p.drop_last(); let f = cell_factor(p.last().0@, p.last().1@, z, al); let n = p.len() as int;
        lemma_pfold(d, z, al, b * f); lemma_pairs_prefix(d, p, z, al, n - 1);
        let q = pairs_prod(p, z, al, n - 1);
        assert((b * f) * q == b * (q * f)) by (nonlinear_arith);
    } else { assert(p.fold_right(pfold(z, al), b) == b); assert(b * 1 == b); }
}
pub proof fn lemma_pairs_prefix(a: Seq<(FE, FE)>, b: Seq<(FE, FE)>, z: int, al: int, n: int) requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures pairs_prod(a, z, al, n) == pairs_prod(b, z, al, n) decreases n { if n > 0 { lemma_pairs_prefix(a, b, z, al, n - 1); } }
/// The order of the pairs does not matter.
pub proof fn lemma_pairs_permuted(a: Seq<(FE, FE)>, b: Seq<(FE, FE)>, z: int, al: int) requires a.to_multiset() == b.to_multiset()
    ensures pairs_prod(a, z, al, a.len() as int) == pairs_prod(b, z, al, b.len() as int)
{
    let f = pfold(z, al);
    assert(vstd::seq_lib::commutative_foldr(f)) by {
        assert forall|x: (FE, FE), y: (FE, FE), v: int| #[trigger] f(x, f(y, v)) == f(y, f(x, v)) by {
            let (p, q) = (cell_factor(x.0@, x.1@, z, al), cell_factor(y.0@, y.1@, z, al)); assert((v * q) * p == (v * p) * q) by (nonlinear_arith); } }
    vstd::seq_lib::lemma_fold_right_permutation(a, b, f, 1);
    lemma_pfold(a, z, al, 1); lemma_pfold(b, z, al, 1);
    assert(1 * pairs_prod(a, z, al, a.len() as int) == pairs_prod(a, z, al, a.len() as int)); assert(1 * pairs_prod(b, z, al, b.len() as int) == pairs_prod(b, z, al, b.len() as int));
}
// ---- public memory --------------------------------------------------------------------------------
pub open spec fn out_range(p: &PublicInputs) -> Option<Range<u64>> { if p.memory_segments@.dom().contains(1) { Some(p.memory_segments@[1]) } else { None } }
/// Length of the program in a public memory of n cells.
pub open spec fn program_len(r: Option<Range<u64>>, n: int) -> int { match r { Some(o) => n - (o.end - o.start), None => n } }
/// Address of the i-th public memory cell: the program from 1 on, then the output segment.
pub open spec fn pub_addr(r: Option<Range<u64>>, n: int, i: int) -> int { if i < program_len(r, n) { i + 1 } else { r->Some_0.start + (i - program_len(r, n)) } }
pub open spec fn range_ok(r: Option<Range<u64>>, n: int) -> bool { match r { Some(o) => o.start <= o.end && o.end - o.start <= n, None => true } }
/// Every public address has a value.
pub open spec fn public_ok(p: &PublicInputs) -> bool {
    &&& range_ok(out_range(p), p.public_memory@.dom().len() as int)
    &&& p.public_memory@.dom().len() < u64::MAX
    &&& forall|i: int| 0 <= i < p.public_memory@.dom().len() ==> p.public_memory@.dom().contains(#[trigger] pub_addr(out_range(p), p.public_memory@.dom().len() as int, i))
}
/// a and v with the last cells replaced by the public memory.
pub open spec fn with_public(a: Seq<FE>, v: Seq<FE>, p: &PublicInputs, a2: Seq<FE>, v2: Seq<FE>) -> bool {
    let n = p.public_memory@.dom().len() as int; let k = a.len() - n;
    &&& a2.len() == a.len() && v2.len() == v.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] a2[i] == a[i] && v2[i] == v[i]
    &&& forall|i: int| k <= i < a.len() ==> (#[trigger] a2[i])@ == pub_addr(out_range(p), n, i - k) && v2[i] == p.public_memory@[pub_addr(out_range(p), n, i - k)]
}
pub proof fn lemma_pub_addr_small(r: Option<Range<u64>>, n: int, i: int) requires range_ok(r, n), 0 <= i < n, n < u64::MAX ensures 0 <= pub_addr(r, n, i) <= u64::MAX {}
pub open spec fn factor_at(p: Seq<(FE, FE)>, z: int, al: int, i: int) -> int { cell_factor(p[i].0@, p[i].1@, z, al) }
/// col holds the running products: col[i] * (first i + 1 factors of so) == first i + 1 factors of or.
pub open spec fn running(col: Seq<FE>, so: Seq<(FE, FE)>, or: Seq<(FE, FE)>, z: int, al: int) -> bool {
    col.len() == or.len() && forall|i: int| 0 <= i < col.len() ==> congr((#[trigger] col[i])@ * pairs_prod(so, z, al, i + 1), pairs_prod(or, z, al, i + 1))
}
pub proof fn lemma_prod_step(p: int, ds: int, ns: int, num: int, d: int, inv: int, q: int)
    requires congr(p * ds, ns), congr(inv * d, 1), q == p * (num * inv)
    ensures congr(q * (ds * d), ns * num)
{
    assert(q * (ds * d) == ((p * ds) * num) * (inv * d)) by (nonlinear_arith) requires q == p * (num * inv);
    lemma_congr_mul(p * ds, ns, num, num);
    lemma_congr_mul((p * ds) * num, ns * num, inv * d, 1);
    assert(ns * num * 1 == ns * num);
}
pub open spec fn access_cols() -> Seq<int> { seq![FRAME_PC as int, FRAME_DST_ADDR as int, FRAME_OP0_ADDR as int, FRAME_OP1_ADDR as int] }
pub open spec fn value_cols() -> Seq<int> { seq![FRAME_INST as int, FRAME_DST as int, FRAME_OP0 as int, FRAME_OP1 as int] }
pub open spec fn offset_cols() -> Seq<int> { seq![OFF_DST as int, OFF_OP0 as int, OFF_OP1 as int] }
/// w columns from c on.
pub open spec fn span(c: int, w: int) -> Seq<int> { Seq::new(w as nat, |k: int| c + k) }
pub open spec fn offs16(s: Seq<FE>) -> Seq<u16> { Seq::new(s.len(), |i: int| off16(s[i]) as u16) }
pub open spec fn vals16(s: Seq<FE>) -> Seq<u16> { Seq::new(s.len(), |i: int| s[i]@ as u16) }
/// No access and no public cell is a root of the memory challenges; no offset equals the range-check challenge.
pub open spec fn nonzero_factors(m: TraceTable, p: &PublicInputs, rap: CairoRAPChallenges) -> bool {
    let (z, al) = (rap.z_memory@, rap.alpha_memory@); let n = p.public_memory@.dom().len() as int;
    &&& forall|i: int| 0 <= i < 4 * m.nr() ==> !congr(#[trigger] factor_at(pairs(flat(m, access_cols()), flat(m, value_cols())), z, al, i), 0)
    &&& forall|i: int| 0 <= i < n ==> !congr(cell_factor(#[trigger] pub_addr(out_range(p), n, i), p.public_memory@[pub_addr(out_range(p), n, i)]@, z, al), 0)
    &&& forall|i: int| 0 <= i < 3 * m.nr() ==> !congr(rap.z_range_check@, off16(#[trigger] flat(m, offset_cols())[i]))
}
/// Columns 3..10 list, sorted by address, the accesses with the public memory in place of the last ones; columns 11..14 the running products.
pub open spec fn aux_memory(m: TraceTable, p: &PublicInputs, rap: CairoRAPChallenges, t: TraceTable) -> bool {
    let (a, v) = (flat(m, access_cols()), flat(m, value_cols())); let (sa, sv) = (flat(t, span(3, 4)), flat(t, span(7, 4)));
    &&& sorted_reps(sa)
    &&& exists|a2: Seq<FE>, v2: Seq<FE>| #[trigger] with_public(a, v, p, a2, v2) && pairs(sa, sv).to_multiset() == pairs(a2, v2).to_multiset()
    &&& running(flat(t, span(11, 4)), pairs(sa, sv), pairs(a, v), rap.z_memory@, rap.alpha_memory@)
}
/// Columns 0..2 list the sorted offsets; columns 15..17 the running products.
pub open spec fn aux_range_check(m: TraceTable, rap: CairoRAPChallenges, t: TraceTable) -> bool {
    let o = flat(m, offset_cols()); let s = flat(t, span(0, 3)); let c = flat(t, span(15, 3)); let z = rap.z_range_check@;
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] s[i])@ < 0x1_0000
    &&& forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i]@ <= s[j]@
    &&& vals16(s).to_multiset() == offs16(o).to_multiset()
    &&& forall|i: int| 0 <= i < c.len() ==> congr((#[trigger] c[i])@ * gap_prod(z, s, i + 1), gap_prod(z, o, i + 1))
}
pub open spec fn aux_cell(os: Seq<FE>, sa: Seq<FE>, sv: Seq<FE>, pc: Seq<FE>, rc: Seq<FE>, r: int, c: int) -> FE {
    if c < 3 { os[3 * r + c] } else if c < 7 { sa[4 * r + (c - 3)] } else if c < 11 { sv[4 * r + (c - 7)] } else if c < 15 { pc[4 * r + (c - 11)] } else { rc[3 * r + (c - 15)] }
}
pub open spec fn aux_row(os: Seq<FE>, sa: Seq<FE>, sv: Seq<FE>, pc: Seq<FE>, rc: Seq<FE>, r: int) -> Seq<FE> {
    seq![os[3 * r], os[3 * r + 1], os[3 * r + 2], sa[4 * r], sa[4 * r + 1], sa[4 * r + 2], sa[4 * r + 3], sv[4 * r], sv[4 * r + 1], sv[4 * r + 2], sv[4 * r + 3], pc[4 * r], pc[4 * r + 1], pc[4 * r + 2], pc[4 * r + 3], rc[3 * r], rc[3 * r + 1], rc[3 * r + 2]]
}
pub proof fn lemma_divide(i: int, n: int, rows: int) requires 0 <= i < rows * n, n > 0 ensures 0 <= i / n < rows, 0 <= i % n < n, i == (i / n) * n + i % n
{ assert(i == n * (i / n) + i % n && 0 <= i % n < n) by (nonlinear_arith) requires n > 0; assert(n * (i / n) == (i / n) * n) by (nonlinear_arith);
  assert(0 <= i / n) by (nonlinear_arith) requires i >= 0, n > 0; assert(i / n < rows) by (nonlinear_arith) requires (i / n) * n <= i, i < rows * n, n > 0; }
pub proof fn lemma_flat(t: Seq<FE>, m: TraceTable, cols: Seq<int>)
    requires cols.len() > 0, t.len() == m.nr() * cols.len(), m.nr() >= 0, forall|r: int, k: int| 0 <= r < m.nr() && 0 <= k < cols.len() ==> #[trigger] gcell(t, cols.len() as int, r, k) == m.cell(r, cols[k])
    ensures t == flat(m, cols)
{
    let n = cols.len() as int;
    assert forall|i: int| 0 <= i < t.len() implies t[i] == flat(m, cols)[i] by { lemma_divide(i, n, m.nr()); assert(gcell(t, n, i / n, i % n) == m.cell(i / n, cols[i % n])); }
    assert(t =~= flat(m, cols));
}
pub proof fn lemma_flat_cols(t: TraceTable, s: Seq<FE>, c: int, w: int)
    requires w > 0, t.nr() >= 0, s.len() == w * t.nr(), forall|r: int, k: int| 0 <= r < t.nr() && 0 <= k < w ==> #[trigger] t.cell(r, c + k) == s[w * r + k]
    ensures flat(t, span(c, w)) == s
{
    assert(t.nr() * w == w * t.nr()) by (nonlinear_arith);
    let f = flat(t, span(c, w));
    assert forall|i: int| 0 <= i < s.len() implies f[i] == s[i] by { lemma_divide(i, w, t.nr()); assert((i / w) * w == w * (i / w)) by (nonlinear_arith); assert(t.cell(i / w, c + i % w) == s[w * (i / w) + i % w]); }
    assert(f =~= s);
}
pub proof fn lemma_same_pairs(a: Seq<(FE, FE)>, b: Seq<(FE, FE)>, i: int) requires a.to_multiset() == b.to_multiset(), 0 <= i < a.len() ensures b.contains(a[i])
{ a.to_multiset_ensures(); b.to_multiset_ensures(); assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); assert(b.to_multiset().count(a[i]) > 0); }
pub proof fn lemma_sorted_nonzero(m: TraceTable, p: &PublicInputs, rap: CairoRAPChallenges, a2: Seq<FE>, v2: Seq<FE>, sa: Seq<FE>, sv: Seq<FE>)
    requires nonzero_factors(m, p, rap), m.nr() >= 0, public_ok(p), with_public(flat(m, access_cols()), flat(m, value_cols()), p, a2, v2), pairs(sa, sv).to_multiset() == pairs(a2, v2).to_multiset(), sa.len() == a2.len(),
    ensures forall|i: int| 0 <= i < sa.len() ==> !congr(#[trigger] factor_at(pairs(sa, sv), rap.z_memory@, rap.alpha_memory@, i), 0),
{
    let (z, al) = (rap.z_memory@, rap.alpha_memory@); let n = p.public_memory@.dom().len() as int; let k = a2.len() - n;
    assert forall|i: int| 0 <= i < sa.len() implies !congr(#[trigger] factor_at(pairs(sa, sv), z, al, i), 0) by {
        lemma_same_pairs(pairs(sa, sv), pairs(a2, v2), i);
        let j = choose|j: int| 0 <= j < a2.len() && pairs(a2, v2)[j] == pairs(sa, sv)[i];
        if j < k { assert(access_cols().len() == 4 && value_cols().len() == 4); assert(!congr(factor_at(pairs(flat(m, access_cols()), flat(m, value_cols())), z, al, j), 0)); assert(a2[j] == flat(m, access_cols())[j]); }
        else { assert(a2[j]@ == pub_addr(out_range(p), n, j - k)); assert(!congr(cell_factor(pub_addr(out_range(p), n, j - k), p.public_memory@[pub_addr(out_range(p), n, j - k)]@, z, al), 0)); }
    }
}
