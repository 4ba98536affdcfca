// ---- prelude: constraints that hold on their rows have polynomial quotients ----------------------------
/// Product over the first m rows of x - (point of the row).
pub open spec fn rows_prod(x: int, g: int, m: int) -> int decreases m { if m <= 0 { 1 } else { rows_prod(x, g, m - 1) * (x - ipow(g, (m - 1) as nat)) } }
/// Product over i < j of x + g^i.
pub open spec fn anti_prod(x: int, g: int, j: int) -> int decreases j { if j <= 0 { 1 } else { anti_prod(x, g, j - 1) * (x + ipow(g, (j - 1) as nat)) } }
pub proof fn lemma_rows_congr(x: int, y: int, g: int, m: int) requires congr(x, y) ensures congr(rows_prod(x, g, m), rows_prod(y, g, m)) decreases m {
    if m > 0 { lemma_rows_congr(x, y, g, m - 1); let v = ipow(g, (m - 1) as nat); lemma_congr_add(x, y, v, v); lemma_congr_mul(rows_prod(x, g, m - 1), rows_prod(y, g, m - 1), x - v, y - v); }
}
/// The second half of the rows are the opposites of the first.
proof fn lemma_second_half(k: int, x: int, j: int) requires 1 <= k <= two_adicity(), 0 <= j <= ipow(2, (k - 1) as nat)
    ensures congr(rows_prod(x, omega(k), ipow(2, (k - 1) as nat) + j), rows_prod(x, omega(k), ipow(2, (k - 1) as nat)) * anti_prod(x, omega(k), j)) decreases j {
    let h = ipow(2, (k - 1) as nat); let w = omega(k); let r = rows_prod(x, w, h); lemma_ipow2_mono(0, (k - 1) as nat);
    if j > 0 {
        lemma_second_half(k, x, j - 1); let i = j - 1; let v = ipow(w, i as nat); let u = ipow(w, (h + i) as nat); let a = anti_prod(x, w, i);
        lemma_omega_half(k); lemma_ipow_sum(w, h as nat, i as nat); assert(h as nat + i as nat == (h + i) as nat); lemma_congr_mul(ipow(w, h as nat), -1, v, v); assert(-1 * v == -v);
        lemma_congr_add(x, x, u, -v); assert(x - (-v) == x + v);
        lemma_congr_mul(rows_prod(x, w, h + i), r * a, x - u, x + v);
        assert((r * a) * (x + v) == r * (a * (x + v))) by (nonlinear_arith);
        assert((h + j - 1) as nat == (h + i) as nat); assert(rows_prod(x, w, h + j) == rows_prod(x, w, h + i) * (x - u));
    } else { assert(r * 1 == r); }
}
proof fn lemma_pair_ring(r: int, a: int, x: int, v: int, p: int) requires congr(r * a, p) ensures congr((r * (x - v)) * (a * (x + v)), p * (x * x - v * v)) {
    let d = x * x - v * v; assert((x - v) * (x + v) == d) by (nonlinear_arith) requires d == x * x - v * v;
    let (s, t) = (x - v, x + v); assert((r * s) * (a * t) == (r * a) * (s * t)) by (nonlinear_arith);
    lemma_congr_mul(r * a, p, d, d);
}
/// Pairs of opposite rows are the rows of the half-size domain at x^2.
proof fn lemma_pairs(k: int, x: int, j: int) requires 2 <= k <= two_adicity(), j >= 0 ensures congr(rows_prod(x, omega(k), j) * anti_prod(x, omega(k), j), rows_prod(x * x, omega(k - 1), j)) decreases j {
    if j > 0 {
        let i = j - 1; lemma_pairs(k, x, i); let (w, g) = (omega(k), omega(k - 1)); let v = ipow(w, i as nat); let u = ipow(g, i as nat);
        axiom_omega(k - 1); lemma_ipow_congr(w * w, g, i as nat); lemma_ipow_prod(w, w, i as nat); assert(congr(v * v, u));
        let p = rows_prod(x * x, g, i); lemma_pair_ring(rows_prod(x, w, i), anti_prod(x, w, i), x, v, p);
        lemma_congr_add(x * x, x * x, v * v, u); lemma_congr_mul(p, p, x * x - v * v, x * x - u);
    } else { assert(1 * 1 == 1); }
}
/// x^n - 1 is the product over all rows.
pub proof fn theorem_zerofier(k: int, x: int) requires 1 <= k <= two_adicity() ensures congr(rows_prod(x, omega(k), ipow(2, k as nat)), ipow(x, ipow(2, k as nat) as nat) - 1) decreases k {
    let w = omega(k); let h = ipow(2, (k - 1) as nat); lemma_ipow2_mono(0, (k - 1) as nat); assert(ipow(2, k as nat) == 2 * h);
    if k == 1 {
        assert(h == 1); assert(ipow(2, 1) == 2) by (compute); axiom_omega_one(); lemma_ipow_1(x); lemma_ipow_1(w);
        assert(rows_prod(x, w, 2) == rows_prod(x, w, 1) * (x - ipow(w, 1))); assert(rows_prod(x, w, 1) == rows_prod(x, w, 0) * (x - ipow(w, 0))); assert(rows_prod(x, w, 0) == 1); assert(1 * (x - 1) == x - 1);
        lemma_congr_add(x, x, w, -1); assert(x - (-1) == x + 1); lemma_congr_mul(x - 1, x - 1, x - w, x + 1); assert((x - 1) * (x + 1) == x * x - 1) by (nonlinear_arith);
    } else {
        lemma_second_half(k, x, h); lemma_pairs(k, x, h); theorem_zerofier(k - 1, x * x); lemma_ipow_mul(x, 2, h as nat); lemma_ipow_1(x); assert((2 * h) as nat == 2 * (h as nat));
    }
}
/// The rows a constraint applies to and the exempted ones are all rows.
pub proof fn lemma_split_rows(x: int, g: int, n: int, e: int) requires 0 <= e <= n ensures rows_prod(x, g, n) == rows_prod(x, g, n - e) * exempt(x, g, n, e) decreases e {
    if e > 0 {
        lemma_split_rows(x, g, n, e - 1); let (r, f, y) = (rows_prod(x, g, n - e), exempt(x, g, n, e - 1), x - ipow(g, (n - e) as nat));
        assert((n - (e - 1) - 1) as nat == (n - e) as nat); assert(rows_prod(x, g, n - (e - 1)) == r * y); assert((r * y) * f == r * (f * y)) by (nonlinear_arith);
    } else { let r = rows_prod(x, g, n); assert(r * 1 == r); }
}
proof fn lemma_rows_nonzero(k: int, m: int, j: int) requires 1 <= k <= two_adicity(), 0 <= m <= j < ipow(2, k as nat) ensures !congr(rows_prod(ipow(omega(k), j as nat), omega(k), m), 0) decreases m {
    lemma_congr_zero();
    if m > 0 { lemma_rows_nonzero(k, m - 1, j); lemma_omega_distinct(k, m - 1, j); let (a, b) = (ipow(omega(k), j as nat), ipow(omega(k), (m - 1) as nat)); lemma_congr_sub_zero(a, b); if congr(a, b) { assert(congr(b, a)); } lemma_nonzero_mul(rows_prod(a, omega(k), m - 1), a - b); }
}
/// t vanishes on the first m rows.
pub open spec fn zero_rows(t: Seq<int>, g: int, m: int) -> bool { forall|r: int| 0 <= r < m ==> congr(peval(t, #[trigger] row_point(g, r)), 0) }
pub open spec fn row_point(g: int, r: int) -> int { ipow(g, r as nat) }
/// q is the quotient of t by the product over the first m rows.
pub open spec fn quotient_by_rows(t: Seq<int>, q: Seq<int>, g: int, m: int) -> bool { forall|x: int| congr(#[trigger] peval(t, x), rows_prod(x, g, m) * peval(q, x)) }
/// A polynomial that vanishes on the first m rows is divisible by their product.
pub proof fn theorem_divides(t: Seq<int>, k: int, m: int) -> (q: Seq<int>) requires 1 <= k <= two_adicity(), 0 <= m <= ipow(2, k as nat), zero_rows(t, omega(k), m) ensures quotient_by_rows(t, q, omega(k), m), q.len() <= (if t.len() > m { t.len() - m } else { 0 }) decreases m {
    let g = omega(k);
    if m == 0 { assert forall|x: int| congr(#[trigger] peval(t, x), rows_prod(x, g, 0) * peval(t, x)) by { assert(1 * peval(t, x) == peval(t, x)); } t } else {
        let j = m - 1; let p = theorem_divides(t, k, j); let b = row_point(g, j); let q = quot(p, b); let rb = rows_prod(b, g, j);
        assert(congr(peval(t, b), rb * peval(p, b))); lemma_rows_nonzero(k, j, j); if !congr(peval(p, b), 0) { lemma_nonzero_mul(rb, peval(p, b)); assert(false); }
        assert forall|x: int| congr(#[trigger] peval(t, x), rows_prod(x, g, m) * peval(q, x)) by {
            lemma_quot(p, b, x); let (r, y, v) = (rows_prod(x, g, j), x - b, peval(q, x)); lemma_congr_add(y * v, y * v, peval(p, b), 0); lemma_congr_mul(r, r, peval(p, x), y * v); assert(r * (y * v) == (r * y) * v) by (nonlinear_arith);
        }
        lemma_quot(p, b, 0);
        q
    }
}
/// x^a times q.
pub open spec fn pshift(q: Seq<int>, a: nat) -> Seq<int> decreases a { if a == 0 { q } else { seq![0int] + pshift(q, (a - 1) as nat) } }
pub proof fn lemma_pshift(q: Seq<int>, a: nat, x: int) ensures peval(pshift(q, a), x) == ipow(x, a) * peval(q, x), pshift(q, a).len() == q.len() + a decreases a {
    if a > 0 { lemma_pshift(q, (a - 1) as nat, x); let s = pshift(q, (a - 1) as nat); assert((seq![0int] + s).drop_first() =~= s); let (u, v) = (ipow(x, (a - 1) as nat), peval(q, x)); assert(x * (u * v) == (x * u) * v) by (nonlinear_arith); } else { assert(1 * peval(q, x) == peval(q, x)); }
}
/// q raised by a power and weighted.
pub open spec fn weighted(q: Seq<int>, a: nat, c: (FE, FE)) -> Seq<int> { padd(pscale(pshift(q, a), c.0@), pscale(q, c.1@)) }
pub proof fn lemma_weighted(q: Seq<int>, a: nat, c: (FE, FE), x: int) ensures peval(weighted(q, a, c), x) == peval(q, x) * (c.0@ * ipow(x, a) + c.1@), weighted(q, a, c).len() == q.len() + a {
    lemma_pshift(q, a, x); let s = pshift(q, a); lemma_pscale(s, c.0@, x); lemma_pscale(q, c.1@, x); lemma_padd(pscale(s, c.0@), pscale(q, c.1@), x);
    let (u, v, m, n) = (ipow(x, a), peval(q, x), c.0@, c.1@); assert((u * v) * m + v * n == v * (m * u + n)) by (nonlinear_arith);
}
// ---- the sums ----
pub open spec fn tr_at(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, x: int) -> Seq<int> { air.s_transition(frame_at(t, x, omega(log2(air.s_trace_length())), air.s_ctx().transition_offsets@), rap) }
pub open spec fn deg_of(air: &VxAir, i: int) -> int { air.s_ctx().transition_degrees@[i] as int }
pub open spec fn exm_of(air: &VxAir, i: int) -> int { air.s_ctx().transition_exemptions@[i] as int }
/// c is transition constraint i over these columns, and of its declared degree.
pub open spec fn constraint_poly(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, i: int, c: Seq<int>) -> bool {
    c.len() <= deg_of(air, i) * (air.s_trace_length() - 1) + 1 && forall|x: int| congr(#[trigger] peval(c, x), tr_at(air, rap, t, x)[i])
}
pub open spec fn has_poly(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, i: int) -> bool { exists|c: Seq<int>| constraint_poly(air, rap, t, i, c) }
/// Constraint i holds on every row it applies to.
pub open spec fn holds_on_rows(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, i: int) -> bool {
    forall|r: int| 0 <= r < air.s_trace_length() - exm_of(air, i) ==> congr(tr_at(air, rap, t, #[trigger] row_point(omega(log2(air.s_trace_length())), r))[i], 0)
}
pub open spec fn boundary_holds(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, j: int) -> bool { let c = air.s_boundary(rap).constraints@[j]; congr(peval(t[c.col as int]@, row_point(omega(log2(air.s_trace_length())), c.step as int)), c.value@) }
/// The columns satisfy every constraint of the AIR, whose constraints are polynomials of the declared degrees.
pub open spec fn satisfies(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>) -> bool {
    &&& forall|i: int| 0 <= i < n_transition(air) ==> #[trigger] holds_on_rows(air, rap, t, i) && has_poly(air, rap, t, i)
    &&& forall|j: int| 0 <= j < air.s_boundary(rap).constraints@.len() ==> #[trigger] boundary_holds(air, rap, t, j)
}
/// No quotient raised to the composition degree has more than l coefficients.
pub open spec fn within(air: &VxAir, l: int) -> bool { air.s_bound() <= l && forall|i: int| 0 <= i < n_transition(air) ==> air.s_bound() + exm_of(air, i) - #[trigger] deg_of(air, i) + 1 <= l }
proof fn lemma_term_ring(f: int, z: int, r: int, q: int, ev: int, w: int, e: int) requires congr(z, r * e), congr(f * z, 1), congr(ev, r * q) ensures congr(((f * ev) * w) * e, q * w) {
    lemma_congr_mul(f, f, ev, r * q); lemma_congr_mul(f * ev, f * (r * q), w, w); lemma_congr_mul((f * ev) * w, (f * (r * q)) * w, e, e);
    let y = r * e; lemma_congr_mul(f, f, z, y); let v = q * w;
    assert(((f * (r * q)) * w) * e == (f * y) * v) by (nonlinear_arith) requires y == r * e, v == q * w;
    lemma_congr_mul(f * y, 1, v, v); assert(1 * v == v);
}
proof fn lemma_len(bound: int, n: int, deg: int, e: int, tl: int, ql: int, l: int) requires tl <= deg * (n - 1) + 1, ql <= (if tl > n - e { tl - (n - e) } else { 0 }), bound + e - deg + 1 <= l, bound <= l, n * (deg - 1) <= bound, deg >= 1, n >= 1 ensures ql + (bound - n * (deg - 1)) <= l, bound - n * (deg - 1) >= 0 {
    assert(deg * (n - 1) + 1 - (n - e) + (bound - n * (deg - 1)) == bound + e - deg + 1) by (nonlinear_arith); assert(n * (deg - 1) >= 0) by (nonlinear_arith) requires n >= 1, deg >= 1;
}
pub open spec fn tsum_at(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, tc: Seq<(FE, FE)>, x: int, m: int) -> int { tsum(air.s_ctx(), tr_at(air, rap, t, x), x, omega(log2(air.s_trace_length())), air.s_trace_length(), air.s_bound(), tc, m) }
pub open spec fn is_tsum(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, tc: Seq<(FE, FE)>, q: Seq<int>, m: int) -> bool { forall|x: int| off_trace(air, x) ==> congr(#[trigger] peval(q, x), tsum_at(air, rap, t, tc, x, m)) }
pub open spec fn length_law(air: &VxAir) -> bool { let n = air.s_trace_length(); is_pow2(n) && n >= 2 && 1 <= log2(n) <= two_adicity() && n == ipow(2, log2(n) as nat) }
proof fn lemma_tsum_poly(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, tc: Seq<(FE, FE)>, l: int, m: int) -> (q: Seq<int>)
    requires lawful(air), length_law(air), satisfies(air, rap, t), within(air, l), 0 <= m <= n_transition(air) ensures is_tsum(air, rap, t, tc, q, m), q.len() <= l decreases m
{
    if m <= 0 { assert(air.s_bound() >= 0); Seq::empty() } else {
        let i = m - 1; let p = lemma_tsum_poly(air, rap, t, tc, l, i); let n = air.s_trace_length(); let k = log2(n); let g = omega(k); let e = exm_of(air, i); let deg = deg_of(air, i);
        assert(holds_on_rows(air, rap, t, i) && has_poly(air, rap, t, i)); assert(air.s_ctx().transition_exemptions@[i] <= n); assert(1 <= air.s_ctx().transition_degrees@[i]);
        let c = choose|c: Seq<int>| constraint_poly(air, rap, t, i, c);
        assert(zero_rows(c, g, n - e)) by { assert forall|r: int| 0 <= r < n - e implies congr(peval(c, #[trigger] row_point(g, r)), 0) by { assert(congr(peval(c, row_point(g, r)), tr_at(air, rap, t, row_point(g, r))[i])); } }
        let d = theorem_divides(c, k, n - e); let a = adjust(air.s_bound(), n, deg); lemma_len(air.s_bound(), n, deg, e, c.len() as int, d.len() as int, l); let w = weighted(d, a, tc[i]); let q = padd(p, w); lemma_weighted(d, a, tc[i], 0);
        assert forall|x: int| off_trace(air, x) implies congr(#[trigger] peval(q, x), tsum_at(air, rap, t, tc, x, m)) by {
            lemma_weighted(d, a, tc[i], x); lemma_padd(p, w, x); assert(congr(peval(p, x), tsum_at(air, rap, t, tc, x, i)));
            let z = ipow(x, n as nat) - 1; lemma_inverse(z); theorem_zerofier(k, x); lemma_split_rows(x, g, n, e); let (r, ex) = (rows_prod(x, g, n - e), exempt(x, g, n, e)); let f = finv(z); assert(f * z == z * f) by (nonlinear_arith);
            let ev = tr_at(air, rap, t, x)[i]; let wt = tc[i].0@ * ipow(x, a) + tc[i].1@; assert(congr(peval(c, x), ev)); assert(congr(peval(c, x), r * peval(d, x)));
            lemma_term_ring(f, z, r, peval(d, x), ev, wt, ex); lemma_congr_add(peval(p, x), tsum_at(air, rap, t, tc, x, i), peval(d, x) * wt, ((f * ev) * wt) * ex);
        }
        q
    }
}
/// Off the trace domain no row's point is met.
proof fn lemma_off_row(air: &VxAir, x: int, r: int) requires length_law(air), off_trace(air, x), r >= 0 ensures !congr(x - row_point(omega(log2(air.s_trace_length())), r), 0) {
    let n = air.s_trace_length(); let g = omega(log2(n)); let b = ipow(g, r as nat); lemma_congr_sub_zero(x, b); lemma_congr_sub_zero(ipow(x, n as nat), 1);
    if congr(x, b) { lemma_ipow_congr(x, b, n as nat); lemma_ipow_mul(g, r as nat, n as nat); lemma_ipow_mul(g, n as nat, r as nat); assert((r as nat) * (n as nat) == (n as nat) * (r as nat)) by (nonlinear_arith); lemma_omega_order(log2(n)); lemma_ipow_congr(ipow(g, n as nat), 1, r as nat); lemma_ipow_one(r as nat); }
}
pub open spec fn bsum_at(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, bc: Seq<(FE, FE)>, x: int, m: int) -> int { let n = air.s_trace_length(); let g = omega(log2(n)); bsum(air.s_boundary(rap).constraints@, frame_at(t, x, g, air.s_ctx().transition_offsets@), x, g, air.s_bound() - n, bc, m) }
pub open spec fn is_bsum(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, bc: Seq<(FE, FE)>, q: Seq<int>, m: int) -> bool { forall|x: int| off_trace(air, x) ==> congr(#[trigger] peval(q, x), bsum_at(air, rap, t, bc, x, m)) }
pub open spec fn columns_within(t: Seq<Polynomial<FE>>, n: int) -> bool { forall|c: int| 0 <= c < t.len() ==> (#[trigger] t[c])@.len() <= n }
/// The first row of the frame holds the columns at x.
pub proof fn lemma_frame_first(t: Seq<Polynomial<FE>>, x: int, g: int, offs: Seq<usize>, c: int) requires 0 <= c < t.len(), offs.len() >= 1, offs[0] == 0 ensures congr(frame_at(t, x, g, offs)[c], peval(t[c]@, x)) {
    let n = t.len() as int; assert(c < offs.len() * n) by (nonlinear_arith) requires c < n, offs.len() >= 1, n >= 1; vstd::arithmetic::div_mod::lemma_small_mod(c as nat, n as nat); vstd::arithmetic::div_mod::lemma_basic_div(c, n);
    assert(ipow(g, 0) == 1); assert(x * 1 == x); broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_mod_twice(peval(t[c]@, x), P());
}
proof fn lemma_bsum_poly(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, bc: Seq<(FE, FE)>, l: int, m: int) -> (q: Seq<int>)
    requires lawful(air), length_law(air), satisfies(air, rap, t), within(air, l), t.len() == air.s_ctx().trace_columns, columns_within(t, air.s_trace_length()), air.s_ctx().transition_offsets@[0] == 0, 0 <= m <= air.s_boundary(rap).constraints@.len() ensures is_bsum(air, rap, t, bc, q, m), q.len() <= l decreases m
{
    if m <= 0 { Seq::empty() } else {
        let j = m - 1; let p = lemma_bsum_poly(air, rap, t, bc, l, j); let n = air.s_trace_length(); let g = omega(log2(n)); let offs = air.s_ctx().transition_offsets@; let cs = air.s_boundary(rap).constraints@; let b = row_point(g, cs[j].step as int); let col = cs[j].col as int; let v = cs[j].value@;
        assert(boundary_holds(air, rap, t, j)); let u = t[col]@; let d = quot(u, b); lemma_quot(u, b, 0); let a = (air.s_bound() - n) as nat; let w = weighted(d, a, bc[j]); let q = padd(p, w); lemma_weighted(d, a, bc[j], 0); assert(t[col]@.len() <= n);
        assert forall|x: int| off_trace(air, x) implies congr(#[trigger] peval(q, x), bsum_at(air, rap, t, bc, x, m)) by {
            lemma_weighted(d, a, bc[j], x); lemma_padd(p, w, x); assert(congr(peval(p, x), bsum_at(air, rap, t, bc, x, j))); lemma_off_row(air, x, cs[j].step as int); lemma_frame_first(t, x, g, offs, col); lemma_quot(u, b, x);
            let y = x - b; let f = frame_at(t, x, g, offs)[col]; let pb = peval(u, b); let dx = peval(d, x); lemma_congr_add(f, peval(u, x), v, pb); assert(congr(f - v, y * dx + 0)); lemma_congr_zero(); lemma_quotient(f - v, y, dx, 0);
            let wt = bc[j].0@ * ipow(x, a) + bc[j].1@; lemma_congr_mul(dx, (f - v) * finv(y), wt, wt); lemma_congr_add(peval(p, x), bsum_at(air, rap, t, bc, x, j), dx * wt, ((f - v) * finv(y)) * wt);
        }
        q
    }
}
/// Columns that satisfy the AIR have a composition polynomial, of the degree the AIR declares.
pub proof fn theorem_composes(air: &VxAir, rap: RAPChallenges, t: Seq<Polynomial<FE>>, bc: Seq<(FE, FE)>, tc: Seq<(FE, FE)>, l: int) -> (q: Seq<int>)
    requires lawful(air), length_law(air), satisfies(air, rap, t), within(air, l), t.len() == air.s_ctx().trace_columns, columns_within(t, air.s_trace_length()), air.s_ctx().transition_offsets@[0] == 0
    ensures composes(air, rap, t, bc, tc, q), q.len() <= l
{
    let nb = air.s_boundary(rap).constraints@.len() as int; let nt = n_transition(air); let p = lemma_bsum_poly(air, rap, t, bc, l, nb); let r = lemma_tsum_poly(air, rap, t, tc, l, nt); let q = padd(p, r);
    assert forall|x: int| off_trace(air, x) implies congr(#[trigger] peval(q, x), comp_at(air, rap, t, x, bc, tc)) by {
        lemma_padd(p, r, x); assert(congr(peval(p, x), bsum_at(air, rap, t, bc, x, nb))); assert(congr(peval(r, x), tsum_at(air, rap, t, tc, x, nt)));
        lemma_congr_add(peval(p, x), bsum_at(air, rap, t, bc, x, nb), peval(r, x), tsum_at(air, rap, t, tc, x, nt));
    }
    q
}
