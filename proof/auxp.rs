// ---- shared: where the running products end --------------------------------------------------------
/// The public addresses are pairwise different: the output segment starts behind the program.
pub open spec fn segments_apart(p: &PublicInputs) -> bool { match out_range(p) { Some(o) => o.start == o.end || program_len(Some(o), p.public_memory@.dom().len() as int) < o.start, None => true } }
/// The last n accesses are to address zero with value zero.
pub open spec fn dummies(a: Seq<FE>, v: Seq<FE>, n: int) -> bool { n <= a.len() && forall|i: int| a.len() - n <= i < a.len() ==> (#[trigger] a[i])@ == 0 && v[i]@ == 0 }
pub proof fn lemma_pairs_split(p: Seq<(FE, FE)>, z: int, al: int, k: int, n: int) requires 0 <= k <= n <= p.len()
    ensures pairs_prod(p, z, al, n) == pairs_prod(p, z, al, k) * pairs_prod(p.subrange(k, p.len() as int), z, al, n - k) decreases n - k
{
    let q = p.subrange(k, p.len() as int); let x = pairs_prod(p, z, al, k);
    if n > k {
        lemma_pairs_split(p, z, al, k, n - 1); assert(q[n - 1 - k] == p[n - 1]);
        let (y, f) = (pairs_prod(q, z, al, n - 1 - k), factor_at(p, z, al, n - 1)); assert((x * y) * f == x * (y * f)) by (nonlinear_arith);
    } else { assert(x * 1 == x); }
}
pub proof fn lemma_pairs_nonzero(p: Seq<(FE, FE)>, z: int, al: int, n: int) requires 0 <= n <= p.len(), forall|i: int| 0 <= i < n ==> !congr(#[trigger] factor_at(p, z, al, i), 0)
    ensures !congr(pairs_prod(p, z, al, n), 0) decreases n
{ lemma_congr_zero(); if n > 0 { lemma_pairs_nonzero(p, z, al, n - 1); assert(!congr(factor_at(p, z, al, n - 1), 0)); lemma_nonzero_mul(pairs_prod(p, z, al, n - 1), factor_at(p, z, al, n - 1)); } }
pub proof fn lemma_pairs_zero(p: Seq<(FE, FE)>, z: int, al: int, n: int) requires 0 <= n <= p.len(), forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).0@ == 0 && p[i].1@ == 0
    ensures pairs_prod(p, z, al, n) == ipow(z, n as nat) decreases n
{ if n > 0 { lemma_pairs_zero(p, z, al, n - 1); let q = pairs_prod(p, z, al, n - 1); assert(p[n - 1].0@ == 0); assert(cell_factor(0, 0, z, al) == z) by { assert(al * 0 == 0); } assert(q * z == z * q) by (nonlinear_arith); } }
/// n different keys of a set of n are all of it.
pub proof fn lemma_all_keys(s: Set<int>, n: int, f: spec_fn(int) -> int) requires s.finite(), s.len() == n, forall|i: int| 0 <= i < n ==> s.contains(#[trigger] f(i)), forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] f(i) != #[trigger] f(j)
    ensures forall|k: int| s.contains(k) ==> exists|i: int| 0 <= i < n && #[trigger] f(i) == k
{
    let q = Seq::new(n as nat, |i: int| f(i)); let t = q.to_set();
    assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < j { assert(f(i) != f(j)); } else { assert(f(j) != f(i)); } } }
    q.unique_seq_to_set();
    assert(t.subset_of(s)) by { assert forall|k: int| t.contains(k) implies s.contains(k) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(s.contains(f(i))); } }
    q.lemma_cardinality_of_set();
    vstd::set_lib::lemma_subset_equality(t, s);
    assert forall|k: int| s.contains(k) implies exists|i: int| 0 <= i < n && #[trigger] f(i) == k by { assert(t.contains(k)); let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(f(i) == k); }
}
pub proof fn lemma_public_product(p: &PublicInputs, a: Seq<FE>, v: Seq<FE>, z: int, al: int)
    requires public_ok(p), segments_apart(p), p.public_memory@.dom().finite(), a.len() == p.public_memory@.dom().len(), v.len() == a.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == pub_addr(out_range(p), a.len() as int, i) && v[i] == p.public_memory@[pub_addr(out_range(p), a.len() as int, i)],
    ensures congr(pairs_prod(pairs(a, v), z, al, a.len() as int), mem_product(p.public_memory@, z, al))
{
    broadcast use axiom_P;
    let m = p.public_memory@; let n = a.len() as int; let r = out_range(p);
    let es: Seq<(&FE, &FE)> = Seq::new(n as nat, |i: int| (&a[i], &v[i]));
    assert forall|i: int| 0 <= i < n implies (*(#[trigger] es[i]).0).k() == pub_addr(r, n, i) by { lemma_pub_addr_small(r, n, i); assert(a[i]@ == pub_addr(r, n, i)); vstd::arithmetic::div_mod::lemma_small_mod(pub_addr(r, n, i) as nat, P() as nat); }
    let f = |i: int| pub_addr(r, n, i);
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] f(i) != #[trigger] f(j) by {}
    assert forall|i: int| 0 <= i < n implies m.dom().contains(#[trigger] f(i)) by { assert(m.dom().contains(pub_addr(r, n, i))); }
    lemma_all_keys(m.dom(), n, f);
    assert forall|k: int| m.dom().contains(k) implies exists|i: int| 0 <= i < es.len() && (*(#[trigger] es[i]).0).k() == k by { let i = choose|i: int| 0 <= i < n && #[trigger] f(i) == k; assert((*es[i].0).k() == k); }
    assert forall|i: int| 0 <= i < n implies m.dom().contains((*(#[trigger] es[i]).0).k()) && m[(*es[i].0).k()] == *es[i].1 by { assert(a[i]@ == pub_addr(r, n, i)); assert(m.dom().contains(f(i))); }
    assert(entries_of(es, m));
    lemma_listed_product(es, m, z, al);
    lemma_es(es, a, v, z, al, n);
}
pub proof fn lemma_es(es: Seq<(&FE, &FE)>, a: Seq<FE>, v: Seq<FE>, z: int, al: int, n: int) requires 0 <= n <= es.len(), n <= a.len(), n <= v.len(), forall|i: int| 0 <= i < n ==> *(#[trigger] es[i]).0 == a[i] && *es[i].1 == v[i]
    ensures cells_product(es, z, al, n) == pairs_prod(pairs(a, v), z, al, n) decreases n { if n > 0 { lemma_es(es, a, v, z, al, n - 1); assert(*es[n - 1].0 == a[n - 1]); } }
/// The last cell of the memory product column is the value the boundary constraint demands.
pub proof fn theorem_memory_product(m: TraceTable, p: &PublicInputs, rap: CairoRAPChallenges, t: TraceTable)
    requires m.nr() > 0, t.nr() == m.nr(), public_ok(p), segments_apart(p), p.public_memory@.dom().finite(), nonzero_factors(m, p, rap), aux_memory(m, p, rap, t),
        dummies(flat(m, access_cols()), flat(m, value_cols()), p.public_memory@.dom().len() as int),
    ensures congr(t.cell(m.nr() - 1, 14)@ * mem_product(p.public_memory@, rap.z_memory@, rap.alpha_memory@), ipow(rap.z_memory@, p.public_memory@.dom().len()))
{
    let (z, al) = (rap.z_memory@, rap.alpha_memory@); let n = p.public_memory@.dom().len() as int;
    assert(access_cols().len() == 4 && value_cols().len() == 4 && span(3, 4).len() == 4 && span(7, 4).len() == 4 && span(11, 4).len() == 4);
    let (a, v) = (flat(m, access_cols()), flat(m, value_cols())); let (sa, sv) = (flat(t, span(3, 4)), flat(t, span(7, 4))); let col = flat(t, span(11, 4));
    let (a2, v2) = choose|a2: Seq<FE>, v2: Seq<FE>| #[trigger] with_public(a, v, p, a2, v2) && pairs(sa, sv).to_multiset() == pairs(a2, v2).to_multiset();
    let (so, or, pu) = (pairs(sa, sv), pairs(a, v), pairs(a2, v2));
    let len = 4 * m.nr(); let k = len - n;
    assert(a.len() == len && col.len() == len && so.len() == len);
    assert((len - 1) / 4 == m.nr() - 1 && (len - 1) % 4 == 3);
    assert(col[len - 1] == t.cell(m.nr() - 1, 14));
    let c = col[len - 1]@;
    assert(congr(c * pairs_prod(so, z, al, len), pairs_prod(or, z, al, len)));
    lemma_pairs_permuted(so, pu, z, al);
    lemma_pairs_split(pu, z, al, k, len); lemma_pairs_split(or, z, al, k, len);
    lemma_pairs_prefix(pu, or, z, al, k);
    let x = pairs_prod(or, z, al, k);
    lemma_pairs_nonzero(or, z, al, k);
    let (tp, to) = (pu.subrange(k, len), or.subrange(k, len));
    assert(tp =~= pairs(a2.subrange(k, len), v2.subrange(k, len)));
    let (ap, vp) = (a2.subrange(k, len), v2.subrange(k, len));
    assert forall|i: int| 0 <= i < n implies (#[trigger] ap[i])@ == pub_addr(out_range(p), n, i) && vp[i] == p.public_memory@[pub_addr(out_range(p), n, i)] by { assert(a2[k + i]@ == pub_addr(out_range(p), n, i)); }
    lemma_public_product(p, ap, vp, z, al);
    assert forall|i: int| 0 <= i < n implies (#[trigger] to[i]).0@ == 0 && to[i].1@ == 0 by { assert(a[k + i]@ == 0); }
    lemma_pairs_zero(to, z, al, n);
    let (y, w) = (pairs_prod(tp, z, al, n), ipow(z, n as nat));
    assert(c * (x * y) == x * (c * y)) by (nonlinear_arith);
    lemma_congr_cancel(x, c * y, w);
    lemma_congr_mul(c, c, y, mem_product(p.public_memory@, z, al));
}
pub open spec fn gp16(z: int, u: Seq<u16>, n: int) -> int decreases n { if n <= 0 { 1 } else { gp16(z, u, n - 1) * (z - u[n - 1]) } }
pub open spec fn gfold(z: int) -> spec_fn(u16, int) -> int { |x: u16, acc: int| acc * (z - x) }
pub proof fn lemma_gp_prefix(a: Seq<u16>, b: Seq<u16>, z: int, n: int) requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures gp16(z, a, n) == gp16(z, b, n) decreases n { if n > 0 { lemma_gp_prefix(a, b, z, n - 1); } }
pub proof fn lemma_gfold(u: Seq<u16>, z: int, b: int) ensures u.fold_right(gfold(z), b) == b * gp16(z, u, u.len() as int) decreases u.len() {
    if u.len() > 0 {
        let d = u.drop_last(); let f = z - u.last(); let n = u.len() as int;
        lemma_gfold(d, z, b * f); lemma_gp_prefix(d, u, z, n - 1);
        let q = gp16(z, u, n - 1);
        assert((b * f) * q == b * (q * f)) by (nonlinear_arith);
    } else { assert(u.fold_right(gfold(z), b) == b); assert(b * 1 == b); }
}
pub proof fn lemma_gp_permuted(a: Seq<u16>, b: Seq<u16>, z: int) requires a.to_multiset() == b.to_multiset() ensures gp16(z, a, a.len() as int) == gp16(z, b, b.len() as int)
{
    let f = gfold(z);
    assert(vstd::seq_lib::commutative_foldr(f)) by {
        assert forall|x: u16, y: u16, v: int| #[trigger] f(x, f(y, v)) == f(y, f(x, v)) by { let (p, q) = (z - x, z - y); assert((v * q) * p == (v * p) * q) by (nonlinear_arith); } }
    vstd::seq_lib::lemma_fold_right_permutation(a, b, f, 1);
    lemma_gfold(a, z, 1); lemma_gfold(b, z, 1);
    assert(1 * gp16(z, a, a.len() as int) == gp16(z, a, a.len() as int)); assert(1 * gp16(z, b, b.len() as int) == gp16(z, b, b.len() as int));
}
pub proof fn lemma_gp_vals(s: Seq<FE>, u: Seq<u16>, z: int, n: int) requires 0 <= n <= s.len(), n <= u.len(), forall|i: int| 0 <= i < n ==> congr((#[trigger] s[i])@, u[i] as int)
    ensures congr(gap_prod(z, s, n), gp16(z, u, n)) decreases n
{ if n > 0 { lemma_gp_vals(s, u, z, n - 1); assert(congr(s[n - 1]@, u[n - 1] as int)); lemma_congr_add(z, z, s[n - 1]@, u[n - 1] as int); lemma_congr_mul(gap_prod(z, s, n - 1), gp16(z, u, n - 1), z - s[n - 1]@, z - u[n - 1]); } }
pub proof fn lemma_gp_nonzero(u: Seq<u16>, z: int, n: int) requires 0 <= n <= u.len(), forall|i: int| 0 <= i < n ==> !congr(z, (#[trigger] u[i]) as int) ensures !congr(gp16(z, u, n), 0) decreases n
{ lemma_congr_zero(); if n > 0 { lemma_gp_nonzero(u, z, n - 1); assert(!congr(z, u[n - 1] as int)); lemma_congr_sub_zero(z, u[n - 1] as int); lemma_nonzero_mul(gp16(z, u, n - 1), z - u[n - 1]); } }
/// The last cell of the range-check product column is one, as the boundary constraint demands.
pub proof fn theorem_range_check_product(m: TraceTable, p: &PublicInputs, rap: CairoRAPChallenges, t: TraceTable)
    requires m.nr() > 0, t.nr() == m.nr(), nonzero_factors(m, p, rap), aux_range_check(m, rap, t),
        forall|i: int| 0 <= i < 3 * m.nr() ==> rep(#[trigger] flat(m, offset_cols())[i]) < 0x1_0000,
    ensures congr(t.cell(m.nr() - 1, 17)@, 1)
{
    broadcast use axiom_P;
    assert(offset_cols().len() == 3 && span(0, 3).len() == 3 && span(15, 3).len() == 3);
    let o = flat(m, offset_cols()); let s = flat(t, span(0, 3)); let col = flat(t, span(15, 3)); let z = rap.z_range_check@; let len = 3 * m.nr();
    assert(o.len() == len && s.len() == len && col.len() == len);
    assert((len - 1) / 3 == m.nr() - 1 && (len - 1) % 3 == 2);
    assert(col[len - 1] == t.cell(m.nr() - 1, 17));
    let c = col[len - 1]@;
    assert(congr(c * gap_prod(z, s, len), gap_prod(z, o, len)));
    let (us, uo) = (vals16(s), offs16(o));
    assert forall|i: int| 0 <= i < len implies congr((#[trigger] s[i])@, us[i] as int) by {}
    assert forall|i: int| 0 <= i < len implies congr((#[trigger] o[i])@, uo[i] as int) by { assert(rep(flat(m, offset_cols())[i]) < 0x1_0000); vstd::arithmetic::div_mod::lemma_mod_twice(o[i]@, P()); }
    assert forall|i: int| 0 <= i < len implies !congr(z, (#[trigger] uo[i]) as int) by { assert(!congr(rap.z_range_check@, off16(flat(m, offset_cols())[i]))); }
    lemma_gp_vals(s, us, z, len); lemma_gp_vals(o, uo, z, len); lemma_gp_permuted(us, uo, z); lemma_gp_nonzero(uo, z, len);
    let g = gp16(z, uo, len);
    lemma_congr_mul(c, c, gap_prod(z, s, len), g);
    assert(congr(g * c, g * 1)) by { assert(g * c == c * g) by (nonlinear_arith); assert(g * 1 == g); }
    lemma_congr_cancel(g, c, 1);
}
