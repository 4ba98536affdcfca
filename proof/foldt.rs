// ---- prelude: folding by coefficients is folding by values -----------------------------------------
/// Folding is what the verifier computes from the two values at x and -x: 2x f(x^2) = x (p(x) + p(-x)) + beta (p(x) - p(-x)).
pub proof fn theorem_fold(c: Seq<int>, beta: int, x: int)
    ensures 2 * x * peval(fold_of(c, beta), x * x) == x * (peval(c, x) + peval(c, -x)) + beta * (peval(c, x) - peval(c, -x))
    decreases c.len()
{
    if c.len() == 0 { assert(2 * x * 0 == 0); assert(x * (0 + 0) == 0 && beta * (0 - 0) == 0); assert(fold_of(c, beta).len() == 0); }
    else {
        let d = if c.len() > 1 { c.drop_first().drop_first() } else { Seq::empty() };
        theorem_fold(d, beta, x);
        let f = fold_of(c, beta); let g = fold_of(d, beta);
        assert(f.drop_first() =~= g) by {
            assert forall|i: int| 0 <= i < g.len() implies f.drop_first()[i] == g[i] by { assert(co(c, 2 * (i + 1)) == co(d, 2 * i)); assert(co(c, 2 * (i + 1) + 1) == co(d, 2 * i + 1)); }
        }
        assert(x * 0 == 0); assert((-x) * 0 == 0);
        let (p0, p1, dx, dn, gx) = (co(c, 0), co(c, 1), peval(d, x), peval(d, -x), peval(g, x * x));
        assert(peval(c, x) == p0 + x * (p1 + x * dx)) by { if c.len() > 1 { assert(peval(c.drop_first(), x) == c.drop_first()[0] + x * peval(c.drop_first().drop_first(), x)); } else { assert(c.drop_first() =~= Seq::<int>::empty()); } }
        assert(peval(c, -x) == p0 + (-x) * (p1 + (-x) * dn)) by { if c.len() > 1 { assert(peval(c.drop_first(), -x) == c.drop_first()[0] + (-x) * peval(c.drop_first().drop_first(), -x)); } else { assert(c.drop_first() =~= Seq::<int>::empty()); } }
        assert(peval(f, x * x) == (p0 + p1 * beta) + (x * x) * gx);
        lemma_fold_ring(p0, p1, dx, dn, gx, x, beta);
    }
}
pub proof fn lemma_r1(p0: int, x: int, p1: int, d: int) ensures p0 + x * (p1 + x * d) == p0 + x * p1 + (x * x) * d { assert(x * (p1 + x * d) == x * p1 + (x * x) * d) by (nonlinear_arith); }
pub proof fn lemma_r2(p0: int, x: int, p1: int, d: int) ensures p0 + (-x) * (p1 + (-x) * d) == p0 - x * p1 + (x * x) * d { assert((-x) * (p1 + (-x) * d) == -(x * p1) + (x * x) * d) by (nonlinear_arith); }
pub proof fn lemma_r3(a: int, b: int, c: int) ensures a * (b * c) == b * (a * c) { assert(a * (b * c) == b * (a * c)) by (nonlinear_arith); }
pub proof fn lemma_r4(a: int, b: int, c: int) ensures a * (b + c) == a * b + a * c, a * (b - c) == a * b - a * c { assert(a * (b + c) == a * b + a * c && a * (b - c) == a * b - a * c) by (nonlinear_arith); }
pub proof fn lemma_fold_ring(p0: int, p1: int, dx: int, dn: int, gx: int, x: int, beta: int)
    requires 2 * x * gx == x * (dx + dn) + beta * (dx - dn)
    ensures 2 * x * ((p0 + p1 * beta) + (x * x) * gx) == x * ((p0 + x * (p1 + x * dx)) + (p0 + (-x) * (p1 + (-x) * dn))) + beta * ((p0 + x * (p1 + x * dx)) - (p0 + (-x) * (p1 + (-x) * dn)))
{
    lemma_r1(p0, x, p1, dx); lemma_r2(p0, x, p1, dn);
    lemma_fold_lin(p0, x * p1, p1, dx, dn, gx, x, beta, x * x);
}
pub proof fn lemma_fold_lin(p0: int, y: int, p1: int, dx: int, dn: int, gx: int, x: int, beta: int, q: int)
    requires 2 * x * gx == x * (dx + dn) + beta * (dx - dn), y == x * p1
    ensures 2 * x * ((p0 + p1 * beta) + q * gx) == x * ((p0 + y + q * dx) + (p0 - y + q * dn)) + beta * ((p0 + y + q * dx) - (p0 - y + q * dn))
{
    let t = 2 * x;
    // left: t p0 + t p1 beta + q (t gx)
    lemma_r4(t, p0 + p1 * beta, q * gx); lemma_r4(t, p0, p1 * beta); lemma_r3(t, q, gx);
    lemma_r4(q, x * (dx + dn), beta * (dx - dn)); lemma_r3(q, x, dx + dn); lemma_r3(q, beta, dx - dn); lemma_r4(q, dx, dn);
    // right: x (2 p0 + q(dx + dn)) + beta (2 y + q (dx - dn))
    assert((p0 + y + q * dx) + (p0 - y + q * dn) == 2 * p0 + q * (dx + dn));
    assert((p0 + y + q * dx) - (p0 - y + q * dn) == 2 * y + q * (dx - dn));
    lemma_r4(x, 2 * p0, q * (dx + dn)); lemma_r4(beta, 2 * y, q * (dx - dn));
    assert(x * (2 * p0) == t * p0) by (nonlinear_arith) requires t == 2 * x;
    lemma_r5(beta, x, p1);
}
pub proof fn lemma_r5(b: int, x: int, p: int) ensures b * (2 * (x * p)) == (2 * x) * (p * b) { assert(b * (2 * (x * p)) == (2 * x) * (p * b)) by (nonlinear_arith); }
