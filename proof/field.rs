// ---- prelude: the field has no zero divisors, inverses ----------------------------------------
pub axiom fn axiom_field(a: int, b: int) requires congr(a * b, 0) ensures congr(a, 0) || congr(b, 0);
/// An inverse of a, for a not zero.
pub open spec fn is_inv(a: int, b: int) -> bool { congr(a * b, 1) }
pub open spec fn finv(a: int) -> int { choose|b: int| is_inv(a, b) }
pub proof fn lemma_congr_zero() ensures 0int % P() == 0, 1int % P() == 1, 2int % P() == 2, !congr(2, 0), !congr(1, 0) { broadcast use axiom_P; let p = P(); vstd::arithmetic::div_mod::lemma_small_mod(0, p as nat); vstd::arithmetic::div_mod::lemma_small_mod(1, p as nat); vstd::arithmetic::div_mod::lemma_small_mod(2, p as nat); }
pub proof fn lemma_finv(a: int, b: int) requires congr(a * b, 1) ensures congr(b, finv(a)), congr(a * finv(a), 1) {
    let f = finv(a);
    assert(is_inv(a, b)); assert(is_inv(a, f));
    lemma_congr_mul(a * f, 1, b, b); lemma_congr_mul(a * b, 1, f, f);
    assert((a * f) * b == (a * b) * f) by (nonlinear_arith);
    assert(1 * b == b && 1 * f == f);
}
/// Everything but zero has an inverse.
pub axiom fn axiom_inverse(a: int) requires !congr(a, 0) ensures exists|b: int| is_inv(a, b);
pub proof fn lemma_inverse(a: int) requires !congr(a, 0) ensures congr(a * finv(a), 1) { axiom_inverse(a); let b = choose|b: int| is_inv(a, b); lemma_finv(a, b); }
/// The product is not zero if no factor is.
pub proof fn lemma_nonzero_mul(a: int, b: int) requires !congr(a, 0), !congr(b, 0) ensures !congr(a * b, 0) { if congr(a * b, 0) { axiom_field(a, b); } }
pub proof fn lemma_congr_sub_zero(a: int, b: int) ensures congr(a - b, 0) == congr(a, b) {
    broadcast use axiom_P; lemma_congr_zero();
    if congr(a, b) { lemma_congr_add(a, b, b, b); assert(a - b == (a - b)); assert(congr(a - b, b - b)); }
    if congr(a - b, 0) { lemma_congr_add(a - b, 0, b, b); assert(a - b + b == a); }
}
/// Dividing by something that is not zero.
pub proof fn lemma_congr_cancel(a: int, b: int, c: int) requires congr(a * b, a * c), !congr(a, 0) ensures congr(b, c) {
    lemma_congr_sub_zero(a * b, a * c); assert(a * b - a * c == a * (b - c)) by (nonlinear_arith); axiom_field(a, b - c); lemma_congr_sub_zero(b, c);
}
