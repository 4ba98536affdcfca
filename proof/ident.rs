// ---- prelude: a polynomial has no more roots than coefficients ------------------------------------
/// Quotient of c by x - r.
pub open spec fn quot(c: Seq<int>, r: int) -> Seq<int> decreases c.len() { if c.len() <= 1 { Seq::empty() } else { seq![peval(c.drop_first(), r)] + quot(c.drop_first(), r) } }
pub proof fn lemma_quot(c: Seq<int>, r: int, x: int) ensures peval(c, x) == (x - r) * peval(quot(c, r), x) + peval(c, r), quot(c, r).len() == (if c.len() == 0 { 0 } else { c.len() - 1 }) decreases c.len() {
    if c.len() <= 1 {
        assert((x - r) * 0 == 0); assert(peval(quot(c, r), x) == 0);
        if c.len() == 1 { assert(c.drop_first() =~= Seq::<int>::empty()); assert(peval(c.drop_first(), x) == 0 && peval(c.drop_first(), r) == 0); assert(x * 0 == 0 && r * 0 == 0); }
    } else {
        let d = c.drop_first(); lemma_quot(d, r, x); let q = quot(d, r); let (dx, dr, qx) = (peval(d, x), peval(d, r), peval(q, x));
        assert(quot(c, r).drop_first() =~= q); assert(peval(quot(c, r), x) == dr + x * qx);
        assert(c[0] + x * dx == (x - r) * (dr + x * qx) + (c[0] + r * dr)) by (nonlinear_arith) requires dx == (x - r) * qx + dr;
    }
}
/// The coefficients of c from those of its quotient.
pub proof fn lemma_quot_co(c: Seq<int>, r: int, i: int) requires 0 <= i < c.len()
    ensures i == 0 ==> c[0] == peval(c, r) - r * co(quot(c, r), 0), i > 0 ==> c[i] == co(quot(c, r), i - 1) - r * co(quot(c, r), i) decreases c.len() {
    let q = quot(c, r);
    if c.len() == 1 { assert(r * 0 == 0); assert(c.drop_first() =~= Seq::<int>::empty()); assert(peval(c, r) == c[0] + r * peval(c.drop_first(), r)); }
    else {
        let d = c.drop_first(); let e = quot(d, r); assert(q == seq![peval(d, r)] + e); lemma_quot(d, r, 0); lemma_quot(c, r, 0); assert(co(q, 0) == peval(d, r)); assert(peval(c, r) == c[0] + r * peval(d, r));
        if i > 0 { lemma_quot_co(d, r, i - 1); assert(co(q, i) == co(e, i - 1)); if i > 1 { assert(co(q, i - 1) == co(e, i - 2)); } else { assert(co(q, 0) == peval(d, r)); } assert(c[i] == d[i - 1]); }
    }
}
pub open spec fn distinct(p: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> !congr(#[trigger] p[i], #[trigger] p[j]) }
pub open spec fn vanishes(c: Seq<int>, p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() ==> congr(peval(c, #[trigger] p[i]), 0) }
pub open spec fn null(c: Seq<int>) -> bool { forall|i: int| 0 <= i < c.len() ==> congr(#[trigger] c[i], 0) }
/// As many distinct roots as coefficients: every coefficient is zero.
pub proof fn theorem_roots(c: Seq<int>, p: Seq<int>) requires distinct(p), vanishes(c, p), c.len() <= p.len() ensures null(c) decreases c.len() {
    if c.len() > 0 {
        let r = p.last(); let s = p.drop_last(); let q = quot(c, r); lemma_quot(c, r, 0); assert(congr(peval(c, r), 0));
        assert forall|i: int| 0 <= i < s.len() implies congr(peval(q, #[trigger] s[i]), 0) by {
            let x = s[i]; assert(x == p[i]); lemma_quot(c, r, x); let t = (x - r) * peval(q, x);
            lemma_congr_add(peval(c, x), 0, peval(c, r), 0); assert(congr(t, 0)); axiom_field(x - r, peval(q, x)); lemma_congr_sub_zero(x, r); assert(!congr(p[i], p[p.len() - 1]));
        }
        assert(distinct(s)) by { assert forall|i: int, j: int| 0 <= i < j < s.len() implies !congr(#[trigger] s[i], #[trigger] s[j]) by { assert(!congr(p[i], p[j])); } }
        theorem_roots(q, s);
        assert forall|i: int| 0 <= i < c.len() implies congr(#[trigger] c[i], 0) by {
            lemma_quot_co(c, r, i); lemma_null_co(q, i); lemma_null_co(q, i - 1);
            lemma_congr_mul(r, r, co(q, i), 0); assert(r * 0 == 0);
            if i == 0 { lemma_congr_add(peval(c, r), 0, r * co(q, 0), 0); } else { lemma_congr_add(co(q, i - 1), 0, r * co(q, i), 0); }
        }
    }
}
pub proof fn lemma_null_co(c: Seq<int>, i: int) requires null(c) ensures congr(co(c, i), 0) { }
/// Difference of two polynomials.
pub open spec fn psub(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(if a.len() > b.len() { a.len() } else { b.len() }, |i: int| co(a, i) - co(b, i)) }
pub proof fn lemma_tail_co(a: Seq<int>, i: int) requires i >= 0 ensures co(if a.len() > 0 { a.drop_first() } else { a }, i) == co(a, i + 1) { }
pub proof fn lemma_psub(a: Seq<int>, b: Seq<int>, x: int) ensures peval(psub(a, b), x) == peval(a, x) - peval(b, x) decreases a.len() + b.len() {
    let d = psub(a, b);
    if d.len() > 0 {
        let (a1, b1) = (if a.len() > 0 { a.drop_first() } else { a }, if b.len() > 0 { b.drop_first() } else { b });
        lemma_psub(a1, b1, x); assert(d.drop_first() =~= psub(a1, b1));
        assert(peval(a, x) == co(a, 0) + x * peval(a1, x)) by { assert(x * 0 == 0); } assert(peval(b, x) == co(b, 0) + x * peval(b1, x)) by { assert(x * 0 == 0); }
        assert(x * (peval(a1, x) - peval(b1, x)) == x * peval(a1, x) - x * peval(b1, x)) by (nonlinear_arith);
    }
}
pub open spec fn agree(a: Seq<int>, b: Seq<int>, p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() ==> congr(peval(a, #[trigger] p[i]), peval(b, p[i])) }
/// Two polynomials that agree at as many distinct points as they have coefficients are the same.
pub proof fn theorem_agree(a: Seq<int>, b: Seq<int>, p: Seq<int>) requires distinct(p), agree(a, b, p), a.len() <= p.len(), b.len() <= p.len() ensures same_poly(a, b) {
    let d = psub(a, b);
    assert(vanishes(d, p)) by { assert forall|i: int| 0 <= i < p.len() implies congr(peval(d, #[trigger] p[i]), 0) by { lemma_psub(a, b, p[i]); lemma_congr_sub_zero(peval(a, p[i]), peval(b, p[i])); } }
    theorem_roots(d, p);
    assert forall|i: int| congr(#[trigger] co(a, i), co(b, i)) by { if 0 <= i < d.len() { assert(congr(d[i], 0)); lemma_congr_sub_zero(co(a, i), co(b, i)); } }
}
/// Even and odd coefficients side by side.
pub open spec fn woven(e: Seq<int>, o: Seq<int>) -> Seq<int> { Seq::new(2 * (if e.len() > o.len() { e.len() } else { o.len() }), |i: int| if i % 2 == 0 { co(e, i / 2) } else { co(o, i / 2) }) }
pub proof fn lemma_woven(e: Seq<int>, o: Seq<int>, x: int) ensures peval(woven(e, o), x) == peval(e, x * x) + x * peval(o, x * x) decreases e.len() + o.len() {
    let w = woven(e, o);
    if w.len() > 0 {
        let (e1, o1) = (if e.len() > 0 { e.drop_first() } else { e }, if o.len() > 0 { o.drop_first() } else { o });
        lemma_woven(e1, o1, x); let d = w.drop_first(); let v = d.drop_first();
        assert(v =~= woven(e1, o1)) by { assert forall|i: int| 0 <= i < v.len() implies v[i] == #[trigger] woven(e1, o1)[i] by { assert(v[i] == w[i + 2]); assert((i + 2) / 2 == i / 2 + 1); assert((i + 2) % 2 == i % 2); lemma_tail_co(e, i / 2); lemma_tail_co(o, i / 2); } }
        let (s, p, q) = (x * x, peval(e1, x * x), peval(o1, x * x));
        assert(peval(e, s) == co(e, 0) + s * p) by { assert(s * 0 == 0); } assert(peval(o, s) == co(o, 0) + s * q) by { assert(s * 0 == 0); }
        assert(w[0] == co(e, 0)); assert(d[0] == w[1]); assert(w[1] == co(o, 0));
        assert(peval(w, x) == w[0] + x * peval(d, x)); assert(peval(d, x) == d[0] + x * peval(v, x));
        assert(co(e, 0) + x * (co(o, 0) + x * (p + x * q)) == co(e, 0) + s * p + x * (co(o, 0) + s * q)) by (nonlinear_arith) requires s == x * x;
    } else { assert(x * 0 == 0); }
}
