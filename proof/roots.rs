// ---- prelude: powers of the roots of unity ----------------------------------------------------------
pub proof fn lemma_ipow_1(b: int) ensures ipow(b, 1) == b, ipow(b, 2) == b * b, ipow(b, 0) == 1 { assert(ipow(b, 1) == b * ipow(b, 0)); assert(b * 1 == b); assert(ipow(b, 2) == b * ipow(b, 1)); }
pub proof fn lemma_ipow_one(n: nat) ensures ipow(1, n) == 1 decreases n { if n > 0 { lemma_ipow_one((n - 1) as nat); } }
pub proof fn lemma_omega_half(k: int) requires 1 <= k <= two_adicity() ensures congr(ipow(omega(k), ipow(2, (k - 1) as nat) as nat), -1) { lemma_omega_up(1, (k - 1) as nat); axiom_omega_one(); }
/// The root has order 2^k.
pub proof fn lemma_omega_order(k: int) requires 1 <= k <= two_adicity() ensures congr(ipow(omega(k), ipow(2, k as nat) as nat), 1) {
    let h = ipow(2, (k - 1) as nat); let w = omega(k); lemma_omega_half(k); lemma_ipow2_mono(0, (k - 1) as nat);
    assert(ipow(2, k as nat) == 2 * h); lemma_ipow_sum(w, h as nat, h as nat); lemma_congr_mul(ipow(w, h as nat), -1, ipow(w, h as nat), -1); assert((h + h) as nat == h as nat + h as nat);
}
pub proof fn lemma_omega_nonzero(k: int, i: nat) requires 1 <= k <= two_adicity() ensures !congr(ipow(omega(k), i), 0) decreases i {
    lemma_congr_zero();
    if i > 0 {
        lemma_omega_nonzero(k, (i - 1) as nat);
        let w = omega(k); let n = ipow(2, k as nat) as nat; lemma_omega_order(k); lemma_ipow2_mono(0, k as nat);
        if congr(w, 0) { assert(ipow(w, n) == w * ipow(w, (n - 1) as nat)); lemma_congr_mul(w, 0, ipow(w, (n - 1) as nat), ipow(w, (n - 1) as nat)); assert(0 * ipow(w, (n - 1) as nat) == 0); assert(false); }
        lemma_nonzero_mul(w, ipow(w, (i - 1) as nat));
    }
}
/// Whatever has z^(2^k) = 1 is a power of the root.
pub open spec fn is_root(z: int, k: int, i: int) -> bool { 0 <= i < ipow(2, k as nat) && congr(z, ipow(omega(k), i as nat)) }
pub proof fn lemma_root_found(z: int, k: int) -> (i: int) requires 1 <= k <= two_adicity(), congr(ipow(z, ipow(2, k as nat) as nat), 1) ensures is_root(z, k, i) decreases k {
    let w = omega(k); let h = ipow(2, (k - 1) as nat); lemma_ipow2_mono(0, (k - 1) as nat); assert(ipow(2, k as nat) == 2 * h); lemma_omega_half(k);
    if k == 1 {
        assert(h == 1); lemma_ipow_1(z); lemma_ipow_1(w); axiom_omega_one(); assert(ipow(2, 1) == 2) by (compute);
        lemma_congr_sub_zero(z * z, 1); assert(z * z - 1 == (z - 1) * (z - (-1))) by (nonlinear_arith); axiom_field(z - 1, z - (-1));
        if congr(z - 1, 0) { lemma_congr_sub_zero(z, 1); 0 } else { lemma_congr_sub_zero(z, -1); 1 }
    } else {
        lemma_ipow_mul(z, 2, h as nat); lemma_ipow_1(z); assert((2 * h) as nat == 2 * (h as nat));
        let j = lemma_root_found(z * z, k - 1);
        let r = ipow(w, j as nat);
        lemma_ipow_mul(w, 2, j as nat); lemma_ipow_1(w); axiom_omega(k - 1); lemma_ipow_congr(w * w, omega(k - 1), j as nat);
        lemma_ipow_sum(w, j as nat, j as nat); assert(j as nat + j as nat == 2 * (j as nat)); 
        assert(congr(z * z, r * r));
        lemma_congr_sub_zero(z * z, r * r); assert(z * z - r * r == (z - r) * (z + r)) by (nonlinear_arith); axiom_field(z - r, z + r);
        if congr(z - r, 0) { lemma_congr_sub_zero(z, r); j } else {
            lemma_ipow_sum(w, h as nat, j as nat); lemma_congr_mul(ipow(w, h as nat), -1, r, r);
            assert(-1 * r == -r); lemma_congr_sub_zero(z, -r); assert(z - (-r) == z + r);
            assert((h + j) as nat == h as nat + j as nat); h + j
        }
    }
}
/// z^n - 1 is not zero away from the n-th roots.
pub proof fn lemma_zerofier_nonzero(z: int, k: int) requires 1 <= k <= two_adicity(), forall|i: int| !is_root(z, k, i) ensures !congr(ipow(z, ipow(2, k as nat) as nat) - 1, 0) {
    let v = ipow(z, ipow(2, k as nat) as nat); lemma_congr_sub_zero(v, 1);
    if congr(v, 1) { let i = lemma_root_found(z, k); }
}
/// g^((n-1)j) is g^(n-j).
pub proof fn lemma_omega_back(k: int, n: int, last: int, j: int) requires 1 <= k <= two_adicity(), n == ipow(2, k as nat), 1 <= j <= n, congr(last, ipow(omega(k), (n - 1) as nat)) ensures congr(ipow(last, j as nat), ipow(omega(k), (n - j) as nat)) {
    let w = omega(k); lemma_omega_order(k);
    lemma_ipow_congr(last, ipow(w, (n - 1) as nat), j as nat);
    lemma_ipow_mul(w, (n - 1) as nat, j as nat);
    assert((n - 1) * j == n * (j - 1) + (n - j)) by (nonlinear_arith);
    assert(n * (j - 1) >= 0) by (nonlinear_arith) requires n >= 1, j >= 1;
    lemma_ipow_sum(w, (n * (j - 1)) as nat, (n - j) as nat); lemma_ipow_mul(w, n as nat, (j - 1) as nat);
    assert(n as nat * ((j - 1) as nat) == n * (j - 1));
    lemma_ipow_congr(ipow(w, n as nat), 1, (j - 1) as nat); lemma_ipow_one((j - 1) as nat);
    lemma_congr_mul(ipow(w, (n * (j - 1)) as nat), 1, ipow(w, (n - j) as nat), ipow(w, (n - j) as nat));
    assert(1 * ipow(w, (n - j) as nat) == ipow(w, (n - j) as nat));
    assert(((n - 1) as nat) * (j as nat) == (n - 1) * j);
}
/// Powers below the order are distinct.
pub proof fn lemma_omega_distinct(k: int, i: int, j: int) requires 1 <= k <= two_adicity(), 0 <= i < j < ipow(2, k as nat) ensures !congr(ipow(omega(k), i as nat), ipow(omega(k), j as nat)) decreases k {
    let w = omega(k); let h = ipow(2, (k - 1) as nat); lemma_ipow2_mono(0, (k - 1) as nat); assert(ipow(2, k as nat) == 2 * h); lemma_omega_half(k); lemma_congr_zero();
    let d = j - i; lemma_omega_nonzero(k, i as nat);
    if congr(ipow(w, i as nat), ipow(w, j as nat)) {
        lemma_ipow_sum(w, i as nat, d as nat); assert(i as nat + d as nat == j as nat);
        assert(ipow(w, i as nat) * 1 == ipow(w, i as nat));
        lemma_congr_cancel(ipow(w, i as nat), 1, ipow(w, d as nat));
        lemma_omega_not_one(k, d);
    }
}
pub proof fn lemma_omega_not_one(k: int, d: int) requires 1 <= k <= two_adicity(), 0 < d < ipow(2, k as nat) ensures !congr(1, ipow(omega(k), d as nat)) decreases k, d {
    let w = omega(k); let h = ipow(2, (k - 1) as nat); lemma_ipow2_mono(0, (k - 1) as nat); assert(ipow(2, k as nat) == 2 * h); lemma_omega_half(k); lemma_congr_zero();
    if congr(1, ipow(w, d as nat)) {
        if d % 2 == 0 {
            // an even power is a power of the next root
            let e = d / 2;
            if k == 1 { assert(ipow(2, 0) == 1); assert(false); }
            lemma_ipow_mul(w, 2, e as nat); lemma_ipow_1(w); axiom_omega(k - 1); lemma_ipow_congr(w * w, omega(k - 1), e as nat); assert(2 * (e as nat) == d as nat);
            lemma_omega_not_one(k - 1, e);
        } else {
            // raise to the power of half the order: an odd power of -1
            lemma_ipow_congr(1, ipow(w, d as nat), h as nat); lemma_ipow_one(h as nat);
            lemma_ipow_mul(w, d as nat, h as nat); lemma_ipow_mul(w, h as nat, d as nat); assert((d as nat) * (h as nat) == (h as nat) * (d as nat)) by (nonlinear_arith);
            lemma_ipow_congr(ipow(w, h as nat), -1, d as nat); lemma_odd_minus_one(d as nat);
            assert(congr(1, -1)); lemma_congr_add(1, -1, 1, 1); assert(congr(2, 0)); assert(false);
        }
    }
}
pub proof fn lemma_odd_minus_one(d: nat) ensures ipow(-1, d) == (if d % 2 == 1 { -1int } else { 1 }) decreases d { if d > 0 { lemma_odd_minus_one((d - 1) as nat); } }
pub proof fn lemma_omega_mod(k: int, m: int) requires 1 <= k <= two_adicity(), m >= 0 ensures congr(ipow(omega(k), m as nat), ipow(omega(k), (m % ipow(2, k as nat)) as nat)), 0 <= m % ipow(2, k as nat) < ipow(2, k as nat) {
    let n = ipow(2, k as nat); let w = omega(k); lemma_ipow2_mono(0, k as nat); lemma_omega_order(k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, n); let (q, r) = (m / n, m % n);
    assert(q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, n); }
    assert(n * q >= 0) by (nonlinear_arith) requires n >= 1, q >= 0;
    lemma_ipow_sum(w, (n * q) as nat, r as nat); lemma_ipow_mul(w, n as nat, q as nat); assert((n as nat) * (q as nat) == (n * q) as nat);
    lemma_ipow_congr(ipow(w, n as nat), 1, q as nat); lemma_ipow_one(q as nat);
    lemma_congr_mul(ipow(w, (n * q) as nat), 1, ipow(w, r as nat), ipow(w, r as nat)); assert(1 * ipow(w, r as nat) == ipow(w, r as nat));
    assert((n * q) as nat + r as nat == m as nat);
}
pub proof fn lemma_pow2_quotient(n: int, b: int) requires is_pow2(n), is_pow2(n * b), b >= 0 ensures is_pow2(b) decreases n {
    if n > 1 { let h = n / 2; assert(n == 2 * h); assert(n * b == 2 * (h * b)) by (nonlinear_arith) requires n == 2 * h; assert((n * b) / 2 == h * b);
        if n * b == 1 { assert(2 * (h * b) == 1); assert(false); } lemma_pow2_quotient(h, b); } else { assert(1 * b == b); }
}
