// ---- prelude: the DEEP polynomial has few coefficients, and folding uses them up -------------------
/// No coefficient from m on.
pub open spec fn low(c: Seq<int>, m: int) -> bool { forall|i: int| i >= m ==> congr(#[trigger] co(c, i), 0) }
pub proof fn lemma_fold_low(c: Seq<int>, beta: int, m: int) requires low(c, m), m >= 0 ensures low(fold_of(c, beta), (m + 1) / 2) {
    let f = fold_of(c, beta);
    assert forall|i: int| i >= (m + 1) / 2 implies congr(#[trigger] co(f, i), 0) by {
        assert(congr(co(c, 2 * i), 0) && congr(co(c, 2 * i + 1), 0)); lemma_congr_mul(co(c, 2 * i + 1), 0, beta, beta); assert(0 * beta == 0);
        lemma_congr_add(co(c, 2 * i), 0, co(c, 2 * i + 1) * beta, 0);
    }
}
pub proof fn lemma_layer_low(p: Seq<int>, log: Seq<Ev>, roots: Seq<Seq<u8>>, n: int, k: int) requires low(p, n), is_pow2(n), 0 <= k <= log2(n) ensures low(layer_poly(p, log, roots, k), halved(n, k)) decreases k {
    if k > 0 { lemma_layer_low(p, log, roots, n, k - 1); lemma_halved(n, k - 1); lemma_halved(n, k); lemma_fold_low(layer_poly(p, log, roots, k - 1), zeta_of(log, roots, k), halved(n, k - 1)); let h = halved(n, k - 1); assert((h + 1) / 2 == h / 2); }
}
pub proof fn lemma_low_one(c: Seq<int>, x: int) requires low(c, 1) ensures congr(peval(c, x), co(c, 0)) {
    let d = seq![co(c, 0)]; assert(same_poly(c, d)) by { assert forall|i: int| congr(#[trigger] co(c, i), co(d, i)) by { } }
    lemma_peval_same(c, d, x); assert(d.drop_first() =~= Seq::<int>::empty()); assert(peval(d, x) == d[0] + x * peval(d.drop_first(), x)); assert(x * 0 == 0);
}
pub open spec fn padd(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(if a.len() > b.len() { a.len() } else { b.len() }, |i: int| co(a, i) + co(b, i)) }
pub proof fn lemma_padd(a: Seq<int>, b: Seq<int>, x: int) ensures peval(padd(a, b), x) == peval(a, x) + peval(b, x) decreases a.len() + b.len() {
    let d = padd(a, b);
    if d.len() > 0 {
        let (a1, b1) = (if a.len() > 0 { a.drop_first() } else { a }, if b.len() > 0 { b.drop_first() } else { b });
        lemma_padd(a1, b1, x); assert(d.drop_first() =~= padd(a1, b1));
        assert(peval(a, x) == co(a, 0) + x * peval(a1, x)) by { assert(x * 0 == 0); } assert(peval(b, x) == co(b, 0) + x * peval(b1, x)) by { assert(x * 0 == 0); }
        assert(x * (peval(a1, x) + peval(b1, x)) == x * peval(a1, x) + x * peval(b1, x)) by (nonlinear_arith);
    }
}
pub open spec fn pscale(a: Seq<int>, c: int) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] * c) }
pub proof fn lemma_pscale(a: Seq<int>, c: int, x: int) ensures peval(pscale(a, c), x) == peval(a, x) * c decreases a.len() {
    if a.len() > 0 { lemma_pscale(a.drop_first(), c, x); assert(pscale(a, c).drop_first() =~= pscale(a.drop_first(), c)); let v = peval(a.drop_first(), x); assert(a[0] * c + x * (v * c) == (a[0] + x * v) * c) by (nonlinear_arith); } else { assert(0 * c == 0); }
}
/// The quotient of one claim, weighted.
pub open spec fn claim_quot(t: Seq<int>, b: int, c: int) -> Seq<int> { pscale(quot(t, b), c) }
pub proof fn lemma_claim_quot(t: Seq<int>, h: Seq<int>, b: int, v: int, x: int, c: int) requires congr(peval(t, b), v), !congr(x - b, 0), congr(peval(h, x), peval(t, x))
    ensures congr(peval(claim_quot(t, b, c), x), ((peval(h, x) - v) * finv(x - b)) * c), claim_quot(t, b, c).len() == (if t.len() == 0 { 0 } else { t.len() - 1 }) {
    lemma_quot(t, b, x); lemma_pscale(quot(t, b), c, x); let q = peval(quot(t, b), x); let f = finv(x - b);
    lemma_congr_add(peval(h, x), peval(t, x), v, peval(t, b)); let a = peval(h, x) - v;
    assert(congr(a, (x - b) * q)); lemma_congr_zero(); assert((x - b) * q + 0 == (x - b) * q);
    lemma_quotient(a, x - b, q, 0); lemma_congr_mul(q, a * f, c, c);
}
pub open spec fn dcol(t: Seq<int>, offs: Seq<usize>, z: int, g: int, gam: Seq<FE>, base: int, m: int) -> Seq<int> decreases m {
    if m <= 0 { Seq::empty() } else { padd(dcol(t, offs, z, g, gam, base, m - 1), claim_quot(t, shifted(z, g, offs, m - 1), gam[base + m - 1]@)) }
}
pub open spec fn dcols(t: Seq<Polynomial<FE>>, offs: Seq<usize>, z: int, g: int, gam: Seq<FE>, m: int) -> Seq<int> decreases m {
    if m <= 0 { Seq::empty() } else { padd(dcols(t, offs, z, g, gam, m - 1), dcol(t[m - 1]@, offs, z, g, gam, (m - 1) * offs.len(), offs.len() as int)) }
}
pub proof fn lemma_dcol(t: Seq<Polynomial<FE>>, i: int, ev: Seq<Vec<FE>>, offs: Seq<usize>, z: int, g: int, gam: Seq<FE>, base: int, x: int, l: int, m: int)
    requires 0 <= i < t.len(), 0 <= m <= offs.len(), frame_true(t, ev, offs, z, g), regular(x, z, g, offs), t[i]@.len() <= l, l >= 1
    ensures congr(peval(dcol(t[i]@, offs, z, g, gam, base, m), x), deep_prow(peval(t[i]@, x), i, ev, offs, z, g, x, gam, base, m)), dcol(t[i]@, offs, z, g, gam, base, m).len() <= l - 1 decreases m {
    if m > 0 {
        let k = m - 1; lemma_dcol(t, i, ev, offs, z, g, gam, base, x, l, k); let b = shifted(z, g, offs, k);
        let te = ev[k]; let tp = peval(t[i]@, shifted(z, g, offs, k)); assert(0 <= k < offs.len() && 0 <= i < t.len()); assert(te@.len() == t.len()); assert(congr(te@[i]@, tp));
        lemma_claim_quot(t[i]@, t[i]@, b, ev[k]@[i]@, x, gam[base + k]@);
        let (u, v) = (dcol(t[i]@, offs, z, g, gam, base, k), claim_quot(t[i]@, b, gam[base + k]@)); lemma_padd(u, v, x);
        lemma_congr_add(peval(u, x), deep_prow(peval(t[i]@, x), i, ev, offs, z, g, x, gam, base, k), peval(v, x), ((peval(t[i]@, x) - ev[k]@[i]@) * finv(x - b)) * gam[base + k]@);
    }
}
pub proof fn lemma_dcols(t: Seq<Polynomial<FE>>, ev: Seq<Vec<FE>>, offs: Seq<usize>, z: int, g: int, gam: Seq<FE>, x: int, l: int, m: int)
    requires 0 <= m <= t.len(), frame_true(t, ev, offs, z, g), regular(x, z, g, offs), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@.len() <= l, l >= 1
    ensures congr(peval(dcols(t, offs, z, g, gam, m), x), deep_pcols(t, ev, offs, z, g, x, gam, m)), dcols(t, offs, z, g, gam, m).len() <= l - 1 decreases m {
    if m > 0 {
        let k = m - 1; lemma_dcols(t, ev, offs, z, g, gam, x, l, k); lemma_dcol(t, k, ev, offs, z, g, gam, k * offs.len(), x, l, offs.len() as int);
        let (u, v) = (dcols(t, offs, z, g, gam, k), dcol(t[k]@, offs, z, g, gam, k * offs.len(), offs.len() as int)); lemma_padd(u, v, x);
        lemma_congr_add(peval(u, x), deep_pcols(t, ev, offs, z, g, x, gam, k), peval(v, x), deep_prow(peval(t[k]@, x), k, ev, offs, z, g, x, gam, k * offs.len(), offs.len() as int));
    }
}
/// The DEEP combination of columns t and halves e, o.
pub open spec fn deep_comb(t: Seq<Polynomial<FE>>, e: Seq<int>, o: Seq<int>, offs: Seq<usize>, z: int, g: int, ge: int, go: int, gam: Seq<FE>) -> Seq<int> {
    padd(padd(claim_quot(e, z * z, ge), claim_quot(o, z * z, go)), dcols(t, offs, z, g, gam, t.len() as int))
}
pub proof fn lemma_deep_comb(t: Seq<Polynomial<FE>>, ev: Seq<Vec<FE>>, e: Seq<int>, o: Seq<int>, h1: Seq<int>, h2: Seq<int>, v1: int, v2: int, offs: Seq<usize>, z: int, g: int, ge: int, go: int, gam: Seq<FE>, x: int, l: int)
    requires frame_true(t, ev, offs, z, g), regular(x, z, g, offs), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@.len() <= l, l >= 1, e.len() <= l, o.len() <= l, same_poly(e, h1), same_poly(o, h2), congr(v1, peval(h1, z * z)), congr(v2, peval(h2, z * z))
    ensures congr(peval(deep_comb(t, e, o, offs, z, g, ge, go, gam), x), half_term(h1, v1, z * z, x, ge) + half_term(h2, v2, z * z, x, go) + deep_pcols(t, ev, offs, z, g, x, gam, t.len() as int)), deep_comb(t, e, o, offs, z, g, ge, go, gam).len() <= l - 1
{
    let b = z * z; lemma_peval_same(e, h1, b); lemma_peval_same(o, h2, b); lemma_peval_same(e, h1, x); lemma_peval_same(o, h2, x);
    lemma_claim_quot(e, h1, b, v1, x, ge); lemma_claim_quot(o, h2, b, v2, x, go); lemma_dcols(t, ev, offs, z, g, gam, x, l, t.len() as int);
    let (p, q, r) = (claim_quot(e, b, ge), claim_quot(o, b, go), dcols(t, offs, z, g, gam, t.len() as int));
    lemma_padd(p, q, x); lemma_padd(padd(p, q), r, x);
    lemma_congr_add(peval(p, x), half_term(h1, v1, b, x, ge), peval(q, x), half_term(h2, v2, b, x, go));
    lemma_congr_add(peval(p, x) + peval(q, x), half_term(h1, v1, b, x, ge) + half_term(h2, v2, b, x, go), peval(r, x), deep_pcols(t, ev, offs, z, g, x, gam, t.len() as int));
}
/// Whatever takes the DEEP values on enough points is the DEEP combination.
pub proof fn theorem_deep_low(p: Seq<int>, t: Seq<Polynomial<FE>>, e: Seq<int>, o: Seq<int>, r2: Round2, r3: Round3, offs: Seq<usize>, z: int, g: int, ge: int, go: int, gam: Seq<FE>, pts: Seq<int>, l: int)
    requires deep_is(p, t, r2, r3, offs, z, g, ge, go, gam), frame_true(t, r3.trace_ood_evaluations@, offs, z, g), same_poly(e, r2.composition_poly_even@), same_poly(o, r2.composition_poly_odd@),
        r3.composition_poly_even_ood_evaluation@ == peval(r2.composition_poly_even@, z * z), r3.composition_poly_odd_ood_evaluation@ == peval(r2.composition_poly_odd@, z * z),
        forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@.len() <= l, 1 <= l <= pts.len(), e.len() <= l, o.len() <= l, distinct(pts), p.len() <= pts.len(), forall|i: int| 0 <= i < pts.len() ==> regular(#[trigger] pts[i], z, g, offs)
    ensures low(p, l - 1)
{
    let d = deep_comb(t, e, o, offs, z, g, ge, go, gam); let (h1, h2) = (r2.composition_poly_even@, r2.composition_poly_odd@);
    assert(agree(p, d, pts)) by {
        assert forall|i: int| 0 <= i < pts.len() implies congr(peval(p, #[trigger] pts[i]), peval(d, pts[i])) by {
            assert(regular(pts[i], z, g, offs)); lemma_deep_comb(t, r3.trace_ood_evaluations@, e, o, h1, h2, peval(h1, z * z), peval(h2, z * z), offs, z, g, ge, go, gam, pts[i], l);
        }
    }
    lemma_deep_comb(t, r3.trace_ood_evaluations@, e, o, h1, h2, peval(h1, z * z), peval(h2, z * z), offs, z, g, ge, go, gam, pts[0], l);
    theorem_agree(p, d, pts);
    assert forall|i: int| i >= l - 1 implies congr(#[trigger] co(p, i), 0) by { assert(congr(co(p, i), co(d, i))); }
}
/// Even and odd coefficients of q.
pub open spec fn evens(q: Seq<int>) -> Seq<int> { Seq::new(((q.len() + 1) / 2) as nat, |i: int| q[2 * i]) }
pub open spec fn odds(q: Seq<int>) -> Seq<int> { Seq::new((q.len() / 2) as nat, |i: int| q[2 * i + 1]) }
pub proof fn lemma_unweave(q: Seq<int>, e: Seq<int>, o: Seq<int>) requires same_poly(woven(e, o), q) ensures same_poly(evens(q), e), same_poly(odds(q), o) {
    let w = woven(e, o);
    assert forall|i: int| congr(#[trigger] co(evens(q), i), co(e, i)) by { if i >= 0 { assert(congr(co(w, 2 * i), co(q, 2 * i))); assert(co(w, 2 * i) == co(e, i)); assert(co(q, 2 * i) == co(evens(q), i)); } }
    assert forall|i: int| congr(#[trigger] co(odds(q), i), co(o, i)) by { if i >= 0 { assert(congr(co(w, 2 * i + 1), co(q, 2 * i + 1))); assert(co(w, 2 * i + 1) == co(o, i)); assert(co(q, 2 * i + 1) == co(odds(q), i)); } }
}
