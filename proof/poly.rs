// ---- prelude: polynomials and roots of unity ------------------------------------------------
/// Value of a polynomial, coefficients in ascending order.
pub open spec fn peval(c: Seq<int>, x: int) -> int decreases c.len() { if c.len() == 0 { 0 } else { c[0] + x * peval(c.drop_first(), x) } }
/// The primitive root of order 2^k the field implementation hands out, for k up to its two-adicity.
pub uninterp spec fn omega(k: int) -> int;
pub uninterp spec fn two_adicity() -> int;
pub open spec fn lifts(v: Seq<FE>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Polynomial<T> { x: T }
impl Clone for Polynomial<FE> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl View for Polynomial<FE> { type V = Seq<int>; uninterp spec fn view(&self) -> Seq<int>; }
#[verifier::external_body]
#[derive(Debug)]
pub struct FFTError { x: u8 }
/// c is b without (some) trailing zeros.
pub open spec fn trimmed(b: Seq<int>, c: Seq<int>) -> bool {
    c.len() <= b.len() && (forall|i: int| 0 <= i < c.len() ==> #[trigger] b[i] == c[i]) && forall|i: int| c.len() <= i < b.len() ==> congr(#[trigger] b[i], 0)
}
impl Polynomial<FE> {
    #[verifier::external_body]
    pub fn evaluate(&self, x: &FE) -> (r: FE) ensures r@ == peval(self@, x@) { unimplemented!() }
    /// The polynomial through the points (root^i, col[i]) of the domain of col.len() points.
    #[verifier::external_body]
    pub fn interpolate_fft(col: &Vec<FE>) -> (r: Result<Polynomial<FE>, FFTError>)
        ensures is_pow2(col@.len() as int) && log2(col@.len() as int) <= two_adicity() ==> r.is_ok(),
            r.is_ok() ==> is_pow2(col@.len() as int) && r->Ok_0@.len() <= col@.len()
                && forall|i: int| 0 <= i < col@.len() ==> congr(peval(r->Ok_0@, ipow(omega(log2(col@.len() as int)), i as nat)), (#[trigger] col@[i])@)
    { unimplemented!() }
}

/// Coefficient i of a polynomial.
pub open spec fn co(c: Seq<int>, i: int) -> int { if 0 <= i < c.len() { c[i] } else { 0 } }
/// Equal as polynomials over the field.
pub open spec fn same_poly(a: Seq<int>, b: Seq<int>) -> bool { forall|i: int| congr(#[trigger] co(a, i), co(b, i)) }
impl Polynomial<FE> {
    #[verifier::external_body]
    pub fn new(c: &[FE]) -> (r: Self) ensures same_poly(r@, lifts(c@)), r@.len() <= c@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn coefficients(&self) -> (r: &[FE]) ensures lifts(r@) == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pad_with_zero_coefficients(a: &Self, b: &Self) -> (r: (Self, Self))
        ensures same_poly(r.0@, a@), same_poly(r.1@, b@), r.0@.len() == r.1@.len(), r.0@.len() == (if a@.len() > b@.len() { a@.len() } else { b@.len() }) { unimplemented!() }
    /// Values at offset * root^i of the domain of max(degree bound, domain_size) rounded up to a power of two, times blowup.
    #[verifier::external_body]
    pub fn evaluate_offset_fft(&self, blowup: usize, domain_size: Option<usize>, offset: &FE) -> (r: Result<Vec<FE>, FFTError>)
        requires domain_size.is_some(), domain_size->Some_0 <= 0x4000_0000_0000_0000, self@.len() <= 0x4000_0000_0000_0000,
            fft_len(self@.len() as int, domain_size->Some_0 as int) * blowup <= usize::MAX,
        ensures ({ let n = fft_len(self@.len() as int, domain_size->Some_0 as int) * blowup;
            &&& is_pow2(n) && log2(n) <= two_adicity() ==> r.is_ok()
            &&& r.is_ok() ==> r->Ok_0@.len() == n && is_pow2(n)
                && forall|i: int| 0 <= i < n ==> congr((#[trigger] r->Ok_0@[i])@, peval(self@, offset@ * ipow(omega(log2(n)), i as nat))) })
    { unimplemented!() }
}
pub open spec fn fft_len(len: int, ds: int) -> int { next_pow2(if len > ds { len } else { ds }) }
macro_rules! polyop { ($Tr:ident, $SpecTr:ident, $f:ident, $req:ident, $obeys:ident, $spec:ident, $l:ty, $r:ty, $op:tt) => {
  verus! {
    impl vstd::std_specs::ops::$SpecTr<$r> for $l {
       open spec fn $obeys() -> bool { false }
       open spec fn $req(self, rhs: $r) -> bool { true }
       open spec fn $spec(self, rhs: $r) -> Polynomial<FE> { arbitrary() }
    }
    impl $Tr<$r> for $l { type Output = Polynomial<FE>;
       #[verifier::external_body]
       fn $f(self, rhs: $r) -> (res: Polynomial<FE>)
           ensures forall|i: int| congr(#[trigger] co(res@, i), co(self@, i) $op co(rhs@, i)), forall|x: int| congr(#[trigger] peval(res@, x), peval(self@, x) $op peval(rhs@, x)), res@.len() <= (if self@.len() > rhs@.len() { self@.len() } else { rhs@.len() }) { unimplemented!() }
    }
  }
} }
polyop!(Add, AddSpecImpl, add, add_req, obeys_add_spec, add_spec, Polynomial<FE>, Polynomial<FE>, +);
polyop!(Add, AddSpecImpl, add, add_req, obeys_add_spec, add_spec, &Polynomial<FE>, &Polynomial<FE>, +);
pub proof fn lemma_pow2_between(n: int, m: int) requires is_pow2(n), is_pow2(m), m <= n, n < 2 * m || n == 1 ensures n == m decreases n
{ if n > 1 && m > 1 { lemma_pow2_between(n / 2, m / 2); } }
pub proof fn lemma_next_pow2(n: int) requires is_pow2(n) ensures next_pow2(n) == n, n >= 1
{ if n > 1 { let k = choose|k: int| is_pow2(k) && k >= n && (k == 1 || k / 2 < n); assert(is_pow2(n) && n >= n && n / 2 < n); lemma_pow2_between(k, n); } }
/// Congruent sums, products.
pub proof fn lemma_congr_add(a: int, b: int, c: int, d: int) requires congr(a, b), congr(c, d) ensures congr(a + c, b + d), congr(a - c, b - d)
{ broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_add_mod_noop(a, c, P()); vstd::arithmetic::div_mod::lemma_add_mod_noop(b, d, P()); vstd::arithmetic::div_mod::lemma_sub_mod_noop(a, c, P()); vstd::arithmetic::div_mod::lemma_sub_mod_noop(b, d, P()); }
pub proof fn lemma_congr_mul(a: int, b: int, c: int, d: int) requires congr(a, b), congr(c, d) ensures congr(a * c, b * d)
{ broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_mul_mod_noop(a, c, P()); vstd::arithmetic::div_mod::lemma_mul_mod_noop(b, d, P()); }
/// Equal polynomials have equal values.
pub proof fn lemma_peval_same(a: Seq<int>, b: Seq<int>, x: int) requires same_poly(a, b) ensures congr(peval(a, x), peval(b, x)) decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 { } else {
        let (a1, b1) = (if a.len() > 0 { a.drop_first() } else { a }, if b.len() > 0 { b.drop_first() } else { b });
        assert forall|i: int| congr(#[trigger] co(a1, i), co(b1, i)) by {
            if i >= 0 { assert(co(a1, i) == co(a, i + 1)); assert(co(b1, i) == co(b, i + 1)); assert(congr(co(a, i + 1), co(b, i + 1))); }
        }
        lemma_peval_same(a1, b1, x);
        assert(congr(co(a, 0), co(b, 0)));
        lemma_congr_mul(x, x, peval(a1, x), peval(b1, x));
        assert(x * 0 == 0);
        assert(peval(a, x) == co(a, 0) + x * peval(a1, x));
        assert(peval(b, x) == co(b, 0) + x * peval(b1, x));
        lemma_congr_add(co(a, 0), co(b, 0), x * peval(a1, x), x * peval(b1, x));
    }
}
pub proof fn lemma_pow2_mul(n: int, b: int) requires is_pow2(n), is_pow2(b) ensures is_pow2(n * b), log2(n * b) == log2(n) + log2(b), n * b >= n, n * b >= b decreases n {
    if n > 1 { lemma_pow2_mul(n / 2, b); let h = n / 2; assert(n == 2 * h); assert(n * b == 2 * (h * b)) by (nonlinear_arith) requires n == 2 * h; assert((n * b) / 2 == h * b); assert(n * b >= n) by (nonlinear_arith) requires n >= 1, b >= 1; assert(n * b > 1) by (nonlinear_arith) requires n > 1, b >= 1; }
    else { assert(1 * b == b); }
}
pub proof fn lemma_log2_bound(n: int) requires is_pow2(n) ensures ipow(2, log2(n) as nat) == n, log2(n) >= 0 decreases n { if n > 1 { lemma_log2_bound(n / 2); } }
pub proof fn lemma_log2_nonneg(n: int) requires is_pow2(n) ensures log2(n) >= 0 { lemma_log2_bound(n); }
pub proof fn lemma_ipow2_mono(a: nat, b: nat) requires a <= b ensures 0 < ipow(2, a) <= ipow(2, b) decreases b { if a < b { lemma_ipow2_mono(a, (b - 1) as nat); } else if a > 0 { lemma_ipow2_mono((a - 1) as nat, (a - 1) as nat); } }
/// The roots of unity form a chain: the square of one is the one of half the order.
pub broadcast axiom fn axiom_omega(k: int) requires 1 <= k < two_adicity() ensures congr(#[trigger] omega(k + 1) * omega(k + 1), omega(k));
pub axiom fn axiom_omega_one() requires two_adicity() >= 1 ensures congr(omega(1), -1);
pub proof fn lemma_ipow_sum(b: int, m: nat, n: nat) ensures ipow(b, m + n) == ipow(b, m) * ipow(b, n) decreases m {
    if m > 0 { lemma_ipow_sum(b, (m - 1) as nat, n); assert(b * (ipow(b, (m - 1) as nat) * ipow(b, n)) == (b * ipow(b, (m - 1) as nat)) * ipow(b, n)) by (nonlinear_arith); } else { assert(1 * ipow(b, n) == ipow(b, n)); }
}
pub proof fn lemma_ipow_mul(b: int, m: nat, n: nat) ensures ipow(b, m * n) == ipow(ipow(b, m), n) decreases n {
    if n > 0 { lemma_ipow_mul(b, m, (n - 1) as nat); assert(m * n == m + m * (n - 1)) by (nonlinear_arith); lemma_ipow_sum(b, m, m * ((n - 1) as nat)); assert(m * ((n - 1) as nat) >= 0) by (nonlinear_arith) requires n >= 1; } else { assert(m * 0 == 0); }
}
pub proof fn lemma_ipow_congr(a: int, b: int, n: nat) requires congr(a, b) ensures congr(ipow(a, n), ipow(b, n)) decreases n { if n > 0 { lemma_ipow_congr(a, b, (n - 1) as nat); lemma_congr_mul(a, b, ipow(a, (n - 1) as nat), ipow(b, (n - 1) as nat)); } }
pub proof fn lemma_omega_up(k: int, s: nat) requires 1 <= k, k + s <= two_adicity() ensures congr(ipow(omega(k + s), ipow(2, s) as nat), omega(k)) decreases s {
    if s == 0 { assert(ipow(omega(k), 1) == omega(k) * ipow(omega(k), 0)); assert(omega(k) * 1 == omega(k)); assert(ipow(2, 0) == 1); } else {
        let w = omega(k + s); let h = ipow(2, (s - 1) as nat);
        lemma_ipow2_mono(0, (s - 1) as nat);
        lemma_ipow_mul(w, 2, h as nat);
        assert(ipow(w, 2) == w * w) by { assert(ipow(w, 2) == w * ipow(w, 1)); assert(ipow(w, 1) == w * ipow(w, 0)); assert(w * 1 == w); }
        axiom_omega(k + s - 1);
        lemma_ipow_congr(w * w, omega(k + s - 1), h as nat);
        lemma_omega_up(k, (s - 1) as nat);
        assert(2 * (h as nat) == ipow(2, s) as nat);
    }
}
pub proof fn lemma_peval_x(c: Seq<int>, x: int, y: int) requires congr(x, y) ensures congr(peval(c, x), peval(c, y)) decreases c.len() {
    if c.len() > 0 { lemma_peval_x(c.drop_first(), x, y); lemma_congr_mul(x, y, peval(c.drop_first(), x), peval(c.drop_first(), y)); lemma_congr_add(c[0], c[0], x * peval(c.drop_first(), x), y * peval(c.drop_first(), y)); }
}
pub proof fn lemma_next_pow2_exists(n: int) ensures exists|k: int| is_pow2(k) && k >= n && (k == 1 || k / 2 < n) decreases n {
    if n <= 1 { assert(is_pow2(1)); } else {
        lemma_next_pow2_exists((n + 1) / 2);
        let k = choose|k: int| is_pow2(k) && k >= (n + 1) / 2 && (k == 1 || k / 2 < (n + 1) / 2);
        assert(is_pow2(2 * k)); assert((2 * k) / 2 == k);
        if k == 1 { assert(n == 2); } else { assert(k % 2 == 0); assert(k == 2 * (k / 2)); assert(k < n); }
        assert(is_pow2(2 * k) && 2 * k >= n && (2 * k) / 2 < n);
    }
}
pub proof fn lemma_next_pow2_is(n: int) ensures is_pow2(next_pow2(n)), next_pow2(n) >= n, next_pow2(n) >= 1, n >= 1 ==> next_pow2(n) < 2 * n { lemma_next_pow2_exists(n); if n > 1 { let k = next_pow2(n); assert(is_pow2(k) && k >= n && (k == 1 || k / 2 < n)); } }
pub proof fn lemma_pow2_div(n: int, m: int) requires is_pow2(n), is_pow2(m), m <= n ensures n % m == 0, n == m * (n / m), is_pow2(n / m), log2(n / m) == log2(n) - log2(m) decreases n {
    if m > 1 {
        lemma_pow2_div(n / 2, m / 2);
        let (a, b) = (n / 2, m / 2); assert(n == 2 * a && m == 2 * b);
        let q = a / b; assert(a == b * q);
        assert(n == m * q) by (nonlinear_arith) requires a == b * q, n == 2 * a, m == 2 * b;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, m, q, 0);
    } else { assert(n / 1 == n); }
}
/// The values of a polynomial at offset * root^i of the n-point domain, in natural order.
pub open spec fn on_domain(v: Seq<FE>, c: Seq<int>, offset: int, n: int) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> congr((#[trigger] v[i])@, peval(c, offset * ipow(omega(log2(n)), i as nat)))
}
