// ---- prelude: an honest query passes ---------------------------------------------------------------
pub proof fn lemma_sq_mul(a: int, b: int, k: int) ensures sq(a * b, k) == sq(a, k) * sq(b, k) decreases k {
    if k > 0 { lemma_sq_mul(a, b, k - 1); let (p, q) = (sq(a, k - 1), sq(b, k - 1)); assert((p * q) * (p * q) == (p * p) * (q * q)) by (nonlinear_arith); }
}
pub proof fn lemma_sq_one(k: int) ensures sq(1, k) == 1 decreases k { if k > 0 { lemma_sq_one(k - 1); assert(1 * 1 == 1); } }
/// The point of layer k for position i.
pub open spec fn layer_point(h: int, size: int, i: int, k: int) -> int { sq(h, k) * ipow(omega(log2(halved(size, k))), i as nat) }
/// Squaring the point of one layer gives the point of the next.
pub proof fn lemma_layer_point(h: int, size: int, i: int, k: int) requires is_pow2(size), 0 <= k < log2(size), log2(size) <= two_adicity(), i >= 0 ensures congr(sq(layer_point(h, size, i, 0), k), layer_point(h, size, i, k)) decreases k {
    let x0 = layer_point(h, size, i, 0);
    if k > 0 {
        lemma_layer_point(h, size, i, k - 1); lemma_halved(size, k); lemma_halved(size, k - 1);
        let (s, w) = (sq(h, k - 1), omega(log2(size) - k + 1)); let v = ipow(w, i as nat); let y = s * v;
        lemma_congr_mul(sq(x0, k - 1), y, sq(x0, k - 1), y);
        assert(y * y == (s * s) * (v * v)) by (nonlinear_arith) requires y == s * v;
        axiom_omega(log2(size) - k); lemma_ipow_congr(w * w, omega(log2(size) - k), i as nat); lemma_ipow_prod(w, w, i as nat);
        lemma_congr_mul(s * s, s * s, v * v, ipow(omega(log2(size) - k), i as nat));
    }
}
/// Opposite positions hold opposite points.
pub proof fn lemma_opposite(h: int, size: int, i: int, k: int) requires is_pow2(size), 0 <= k < log2(size), log2(size) <= two_adicity(), i >= 0
    ensures ({ let n = halved(size, k); n >= 2 && congr(layer_point(h, size, i % n, k), layer_point(h, size, i, k)) && congr(layer_point(h, size, (i + n / 2) % n, k), -layer_point(h, size, i, k)) })
{
    let n = halved(size, k); lemma_halved(size, k); lemma_log2_bound(n); let m = log2(n); let w = omega(m); let s = sq(h, k); let hf = n / 2;
    lemma_ipow2_mono(0, (m - 1) as nat); assert(n == 2 * ipow(2, (m - 1) as nat));
    lemma_omega_mod(m, i); lemma_congr_mul(s, s, ipow(w, i as nat), ipow(w, (i % n) as nat));
    lemma_omega_mod(m, i + hf); lemma_omega_half(m); lemma_ipow_sum(w, i as nat, hf as nat); assert(i as nat + hf as nat == (i + hf) as nat);
    let v = ipow(w, i as nat);
    lemma_congr_mul(v, v, ipow(w, hf as nat), -1); assert(v * -1 == -v);
    lemma_congr_mul(s, s, ipow(w, ((i + hf) % n) as nat), -v); assert(s * (-v) == -(s * v)) by (nonlinear_arith);
}
/// What the verifier computes from the values at x and -x is the folded polynomial at x^2.
pub proof fn lemma_fold_step(c: Seq<int>, beta: int, zeta: int, x: int, xi: int, v: int, s: int, half: int)
    requires congr(v, peval(c, x)), congr(s, peval(c, -x)), congr(zeta, beta), congr(x * xi, 1), congr(half * 2, 1), !congr(x, 0)
    ensures congr((v + s) * half + zeta * (v - s) * half * xi, peval(fold_of(c, beta), x * x))
{
    let (p, m) = (peval(c, x), peval(c, -x)); let f = peval(fold_of(c, beta), x * x); theorem_fold(c, beta, x);
    let (a, d) = (v + s, v - s); let r = a * half + zeta * d * half * xi;
    lemma_congr_add(v, p, s, m);
    // 2 x r = x a (2 half) + zeta d (2 half) (x xi)
    let t = half * 2; let y = x * xi;
    assert((2 * x) * r == (x * a) * t + (zeta * d) * (t * y)) by {
        let b = zeta * d; assert(b * half * xi == (b * half) * xi);
        assert((2 * x) * (a * half) == (x * a) * t) by (nonlinear_arith) requires t == half * 2;
        assert((2 * x) * ((b * half) * xi) == b * (t * y)) by (nonlinear_arith) requires t == half * 2, y == x * xi;
        assert((2 * x) * (a * half + (b * half) * xi) == (2 * x) * (a * half) + (2 * x) * ((b * half) * xi)) by (nonlinear_arith);
    }
    lemma_congr_mul(x, x, a, p + m); lemma_congr_mul(x * a, x * (p + m), t, 1); assert((x * (p + m)) * 1 == x * (p + m));
    lemma_congr_mul(zeta, beta, d, p - m); lemma_congr_mul(t, 1, y, 1); lemma_congr_mul(zeta * d, beta * (p - m), t * y, 1); assert((beta * (p - m)) * 1 == beta * (p - m));
    lemma_congr_add((x * a) * t, x * (p + m), (zeta * d) * (t * y), beta * (p - m));
    assert(congr((2 * x) * r, (2 * x) * f));
    lemma_congr_zero(); lemma_nonzero_mul(2, x); lemma_congr_cancel(2 * x, r, f);
}
/// The polynomials of the layers and what a query shows of them.
pub open spec fn shows(q: FriDecommitment, l: Seq<FriLayer>, w: Seq<int>, log: Seq<Ev>, h: int, size: int, i: int, k: int) -> bool {
    let c = layer_poly(w, log, root_list(l), k); let x = layer_point(h, size, i, k);
    congr(q.layers_evaluations@[k]@, peval(c, x)) && congr(q.layers_evaluations_sym@[k]@, peval(c, -x))
}
pub proof fn lemma_shows(q: FriDecommitment, l: Seq<FriLayer>, w: Seq<int>, log: Seq<Ev>, h: int, size: int, i: int, k: int)
    requires is_pow2(size), log2(size) <= two_adicity(), 0 <= k < l.len(), l.len() < log2(size), i >= 0, layers_ok(l, k, w, log, h, size), query_layer(q, l, i, k)
    ensures shows(q, l, w, log, h, size, i, k)
{
    let n = halved(size, k); lemma_halved(size, k); lemma_opposite(h, size, i, k); let c = layer_poly(w, log, root_list(l), k); let x = layer_point(h, size, i, k);
    let (a, b) = (i % n, (i + n / 2) % n); vstd::arithmetic::div_mod::lemma_mod_bound(i, n); vstd::arithmetic::div_mod::lemma_mod_bound(i + n / 2, n);
    let s = sq(h, k); let o = l[k].coset_offset@;
    assert(congr(l[k].evaluation@[a]@, peval(c, layer_point(h, size, a, k)))); lemma_peval_x(c, layer_point(h, size, a, k), x);
    assert(congr(l[k].evaluation@[b]@, peval(c, layer_point(h, size, b, k)))); lemma_peval_x(c, layer_point(h, size, b, k), -x);
}
/// Folding leads to the value of every layer's polynomial.
pub proof fn lemma_folds(q: FriDecommitment, zetas: Seq<FE>, l: Seq<FriLayer>, w: Seq<int>, log: Seq<Ev>, h: int, size: int, i: int, inv: int, half: int, k: int)
    requires is_pow2(size), log2(size) <= two_adicity(), 1 <= l.len() < log2(size), 0 <= k <= l.len(), i >= 0, !congr(h, 0),
        forall|j: int| 0 <= j < l.len() ==> #[trigger] shows(q, l, w, log, h, size, i, j), zetas_drawn(zetas, log, root_list(l)),
        congr(layer_point(h, size, i, 0) * inv, 1), congr(half * 2, 1)
    ensures congr(fold_value(q, zetas, inv, half, k), peval(layer_poly(w, log, root_list(l), k), layer_point(h, size, i, k))) decreases k
{
    if k == 0 { assert(shows(q, l, w, log, h, size, i, 0)); } else {
        let j = k - 1; lemma_folds(q, zetas, l, w, log, h, size, i, inv, half, j); assert(shows(q, l, w, log, h, size, i, j));
        let c = layer_poly(w, log, root_list(l), j); let x = layer_point(h, size, i, j); let (x0, xi) = (layer_point(h, size, i, 0), sq(inv, j)); let beta = zeta_of(log, root_list(l), k);
        lemma_layer_point(h, size, i, j); lemma_layer_point(h, size, i, k);
        lemma_sq_mul(x0, inv, j); lemma_sq_congr(x0 * inv, 1, j); lemma_sq_one(j); lemma_congr_mul(sq(x0, j), x, xi, xi);
        assert(congr(x * xi, 1)); lemma_congr_zero();
        if congr(x, 0) { lemma_congr_mul(x, 0, xi, xi); assert(0 * xi == 0); }
        assert(congr(zetas[j]@, beta));
        lemma_fold_step(c, beta, zetas[j]@, x, xi, fold_value(q, zetas, inv, half, j), q.layers_evaluations_sym@[j]@, half);
        let y = layer_point(h, size, i, k); let f = fold_of(c, beta);
        lemma_congr_mul(sq(x0, j), x, sq(x0, j), x); assert(congr(x * x, y)); lemma_peval_x(f, x * x, y);
    }
}
/// One query of an honest proof: paths open, folding is consistent, and ends in the value sent.
pub proof fn theorem_query(p: StarkProof, q: FriDecommitment, zetas: Seq<FE>, l: Seq<FriLayer>, w: Seq<int>, log: Seq<Ev>, h: int, size: int, i: int, inv: int)
    requires is_pow2(size), log2(size) <= two_adicity(), 1 <= l.len() < log2(size), 0 <= i < size, !congr(h, 0),
        forall|k: int| 0 <= k < l.len() ==> #[trigger] layers_ok(l, k, w, log, h, size), query_holds(q, l, i), zetas_drawn(zetas, log, root_list(l)), hashes(p.fri_layers_merkle_roots@) == root_list(l),
        congr(layer_point(h, size, i, 0) * inv, 1),
        forall|x: int| congr(#[trigger] peval(layer_poly(w, log, root_list(l), l.len() as int), x), p.fri_last_value@)
    ensures query_accepts(p, q, zetas, i, log2(size), inv, finv(2)), query_ok(q, l.len() as int, log2(size))
{
    let half = finv(2); lemma_congr_zero(); lemma_inverse(2); assert(half * 2 == 2 * half);
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] shows(q, l, w, log, h, size, i, k) by { assert(layers_ok(l, k, w, log, h, size) && query_layer(q, l, i, k)); lemma_shows(q, l, w, log, h, size, i, k); }
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] layer_paths(q, log2(size), k) && layer_accepts(p, q, zetas, i, log2(size), inv, half, k) by {
        assert(layers_ok(l, k, w, log, h, size) && query_layer(q, l, i, k)); lemma_halved(size, k); let n = halved(size, k); lemma_log2_bound(n); lemma_opposite(h, size, i, k);
        assert(hashes(p.fri_layers_merkle_roots@)[k] == root_list(l)[k]); let root = p.fri_layers_merkle_roots@[k]@;
        let (a, b) = (hashes(q.layers_auth_paths@[k].merkle_path@), hashes(q.layers_auth_paths_sym@[k].merkle_path@));
        assert(n == ipow(2, (log2(size) - k) as nat)); assert(ipow(2, a.len()) == n);
        axiom_opens_mod(a, root, i, q.layers_evaluations@[k].leaf());
        lemma_folds(q, zetas, l, w, log, h, size, i, inv, half, k + 1);
        if k + 1 < l.len() { assert(shows(q, l, w, log, h, size, i, k + 1)); }
    }
    assert forall|k: int| 0 <= k < p.fri_layers_merkle_roots@.len() implies #[trigger] layer_accepts(p, q, zetas, i, log2(size), inv, half, k) by { assert(hashes(p.fri_layers_merkle_roots@).len() == root_list(l).len()); assert(layer_paths(q, log2(size), k)); }
    lemma_query_shape(q, l, w, log, h, size, i);
}
pub open spec fn layer_paths(q: FriDecommitment, order: int, k: int) -> bool { q.layers_auth_paths@[k].merkle_path@.len() == order - k && q.layers_auth_paths_sym@[k].merkle_path@.len() == order - k }
/// The paths of an honest query have the lengths the layers' trees have.
pub proof fn lemma_query_shape(q: FriDecommitment, l: Seq<FriLayer>, w: Seq<int>, log: Seq<Ev>, h: int, size: int, i: int)
    requires is_pow2(size), log2(size) <= two_adicity(), l.len() < log2(size), forall|k: int| 0 <= k < l.len() ==> #[trigger] layers_ok(l, k, w, log, h, size), query_holds(q, l, i)
    ensures query_ok(q, l.len() as int, log2(size))
{
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] layer_paths(q, log2(size), k) by {
        assert(layers_ok(l, k, w, log, h, size) && query_layer(q, l, i, k)); lemma_halved(size, k);
    }
    assert forall|k: int| 0 <= k < l.len() implies (#[trigger] q.layers_auth_paths@[k]).merkle_path@.len() == log2(size) - k by { assert(layer_paths(q, log2(size), k)); }
    assert forall|k: int| 0 <= k < l.len() implies (#[trigger] q.layers_auth_paths_sym@[k]).merkle_path@.len() == log2(size) - k by { assert(layer_paths(q, log2(size), k)); }
}
