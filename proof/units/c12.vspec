//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!"}, "methods": {"to_be_bytes": "vx_to_be"}}
//@ item starks/fri/fri_commitment.rs FriLayer
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ include layers.rs
//@ include foldt.rs
//@ fn starks/fri/fri_functions.rs fold_polynomial {"types": {"vo_1": "Vec<FE>"}}
ensures same_poly(ret@, fold_of(poly@, beta@)), ret@.len() <= (poly@.len() + 1) / 2,
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == (coef@.len() + 1) / 2, vo_0@.len() == vi_0, forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0@[i] == coef@[2 * i],
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == coef@.len() / 2, vo_1@.len() == vi_1, forall|i: int| 0 <= i < vi_1 ==> (#[trigger] vo_1@[i])@ == coef@[2 * i + 1]@ * beta@,
decreases vn_1 - vi_1
//@ tail
proof {
    let c = poly@; let n = c.len() as int;
    assert forall|i: int| congr(#[trigger] co(vx_tail@, i), co(fold_of(c, beta@), i)) by {
        let (e, o) = (lifts(even_coef@), lifts(odd_coef_mul_beta@));
        assert(congr(co(even_poly@, i), co(e, i)));
        assert(congr(co(odd_poly@, i), co(o, i)));
        lemma_congr_add(co(even_poly@, i), co(e, i), co(odd_poly@, i), co(o, i));
        assert(forall|k: int| 0 <= k < n ==> coef@[k]@ == #[trigger] c[k]);
        assert(0 * beta@ == 0);
        if 0 <= i < (n + 1) / 2 { assert(co(e, i) == co(c, 2 * i)); assert(co(o, i) == co(c, 2 * i + 1) * beta@) by { if 2 * i + 1 < n { assert(odd_coef_mul_beta@[i]@ == coef@[2 * i + 1]@ * beta@); } } }
        else { assert(co(e, i) == 0); assert(co(o, i) == 0); }
    }
}

//@ fn starks/fri/fri_commitment.rs FriLayer::new
requires is_pow2(domain_size as int), log2(domain_size as int) <= two_adicity(), poly@.len() <= domain_size <= 0x4000_0000_0000_0000,
ensures layer_ok(ret, poly@, coset_offset@, domain_size as int),
//@ bodystart
proof { lemma_next_pow2(domain_size as int); assert(fft_len(poly@.len() as int, domain_size as int) * 1 == domain_size); }
//@ item starks/proof/options.rs ProofOptions
//@ include air.rs
//@ raw
proof fn lemma_commit_log_prefix(log0: Seq<Ev>, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, k: int) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures commit_log(log0, a, k) == commit_log(log0, b, k) decreases k { if k > 1 { lemma_commit_log_prefix(log0, a, b, k - 1); } }
proof fn lemma_layer_poly_prefix(p0: Seq<int>, log0: Seq<Ev>, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, k: int) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures layer_poly(p0, log0, a, k) == layer_poly(p0, log0, b, k) decreases k { if k > 0 { lemma_layer_poly_prefix(p0, log0, a, b, k - 1); lemma_commit_log_prefix(log0, a, b, k); } }
proof fn lemma_fold_same(a: Seq<int>, b: Seq<int>, x: int, y: int) requires same_poly(a, b), congr(x, y) ensures same_poly(fold_of(a, x), fold_of(b, y)) {
    assert forall|i: int| congr(#[trigger] co(fold_of(a, x), i), co(fold_of(b, y), i)) by {
        assert(congr(co(a, 2 * i), co(b, 2 * i))); assert(congr(co(a, 2 * i + 1), co(b, 2 * i + 1)));
        lemma_congr_mul(co(a, 2 * i + 1), co(b, 2 * i + 1), x, y);
        lemma_congr_add(co(a, 2 * i), co(b, 2 * i), co(a, 2 * i + 1) * x, co(b, 2 * i + 1) * y);
        assert(0 * x == 0 && 0 * y == 0);
        if i >= 0 { assert(co(fold_of(a, x), i) == co(a, 2 * i) + co(a, 2 * i + 1) * x); assert(co(fold_of(b, y), i) == co(b, 2 * i) + co(b, 2 * i + 1) * y); }
    }
}
proof fn lemma_log2_mono(n: int) requires is_pow2(n), n > 1 ensures log2(n / 2) == log2(n) - 1, is_pow2(n / 2) {}
proof fn lemma_layer_values(v: Seq<FE>, a: Seq<int>, b: Seq<int>, x: int, y: int, n: int)
    requires v.len() == n, same_poly(a, b), congr(x, y), forall|i: int| 0 <= i < n ==> congr((#[trigger] v[i])@, peval(a, x * ipow(omega(log2(n)), i as nat)))
    ensures forall|i: int| 0 <= i < n ==> congr((#[trigger] v[i])@, peval(b, y * ipow(omega(log2(n)), i as nat)))
{
    assert forall|i: int| 0 <= i < n implies congr((#[trigger] v[i])@, peval(b, y * ipow(omega(log2(n)), i as nat))) by {
        let w = ipow(omega(log2(n)), i as nat);
        lemma_congr_mul(x, y, w, w); lemma_peval_x(a, x * w, y * w); lemma_peval_same(a, b, y * w);
    }
}
/// Folding halves the number of coefficients.
proof fn lemma_layer_len(p0: Seq<int>, log0: Seq<Ev>, roots: Seq<Seq<u8>>, k: int, m: int) requires 0 <= k <= m, p0.len() <= ipow(2, m as nat) ensures layer_poly(p0, log0, roots, k).len() <= ipow(2, (m - k) as nat) decreases k {
    if k > 0 { lemma_layer_len(p0, log0, roots, k - 1, m); assert(ipow(2, (m - k + 1) as nat) == 2 * ipow(2, (m - k) as nat)); }
}
//@ use c11 transcript_to_field
//@ use c11 transcript_to_usize
//@ fn starks/fri/mod.rs fri_commit_phase {"types": {"fri_layer_list": "Vec<FriLayer>"}}
requires is_pow2(domain_size as int), log2(domain_size as int) <= two_adicity(), p_0@.len() <= domain_size <= 0x4000_0000_0000_0000, number_layers <= log2(domain_size as int),
ensures
    ret.1@.len() == (if number_layers == 0 { 1int } else { number_layers as int }),
    // every layer commits to the folded polynomial on the squared coset
    forall|k: int| 0 <= k < ret.1@.len() ==> #[trigger] layers_ok(ret.1@, k, p_0@, old(transcript).log(), coset_offset@, domain_size as int),
    // the value sent is the constant coefficient of the last folding, which is all there is of it when the degree bound is met
    congr(ret.0@, co(layer_poly(p_0@, old(transcript).log(), root_list(ret.1@), ret.1@.len() as int), 0)),
    p_0@.len() <= ipow(2, ret.1@.len()) ==> layer_poly(p_0@, old(transcript).log(), root_list(ret.1@), ret.1@.len() as int).len() <= 1,
    // and the messages are the roots, challenges between them, a challenge and the value
    final(transcript).log() == commit_log(old(transcript).log(), root_list(ret.1@), ret.1@.len() as int).push(Ev::Smp).push(Ev::App(fe_bytes(ret.0))),
//@ bodystart
let ghost p0 = p_0@; let ghost ds = domain_size as int; let ghost off = coset_offset@; let ghost log0 = transcript.log();
proof { lemma_log2_nonneg(ds); }
//@ before 0
proof { assert(root_list(fri_layer_list@)[0] == current_layer.merkle_tree.root@); assert(current_layer == fri_layer_list@[0]);
    assert(layers_ok(fri_layer_list@, 0, p0, log0, off, ds)); }
//@ loop 0
invariant vi_0 >= 1, vi_0 <= vn_0 || vi_0 == 1, vn_0 == number_layers, fri_layer_list@.len() == vi_0,
    transcript.log() == commit_log(log0, root_list(fri_layer_list@), vi_0 as int),
    forall|k: int| 0 <= k < vi_0 ==> #[trigger] layers_ok(fri_layer_list@, k, p0, log0, off, ds),
    same_poly(current_poly@, layer_poly(p0, log0, root_list(fri_layer_list@), vi_0 - 1)), current_poly@.len() <= domain_size,
    congr(coset_offset@, sq(off, vi_0 - 1)), domain_size == halved(ds, vi_0 - 1),
decreases vn_0 - vi_0
//@ loopstart 0
let ghost old_list = fri_layer_list@; let ghost old_poly = current_poly@; let ghost old_off = coset_offset@;
proof { lemma_halved(ds, vi_0 - 1); lemma_halved(ds, vi_0 as int); let h = halved(ds, vi_0 - 1); assert(h > 1); }
//@ loopend 0
proof {
    let k = vj_0 as int; let a = root_list(old_list); let b = root_list(fri_layer_list@);
    assert forall|i: int| 0 <= i < k implies a[i] == b[i] by { assert(fri_layer_list@[i] == old_list[i]); }
    lemma_commit_log_prefix(log0, a, b, k);
    lemma_layer_poly_prefix(p0, log0, a, b, k - 1);
    assert(zeta@ % P() == field_of(digest(commit_log(log0, a, k))) % P());
    lemma_fold_same(old_poly, layer_poly(p0, log0, b, k - 1), zeta@, zeta_of(log0, b, k));
    assert(layer_poly(p0, log0, b, k) == fold_of(layer_poly(p0, log0, b, k - 1), zeta_of(log0, b, k)));
    assert(same_poly(current_poly@, layer_poly(p0, log0, b, k))) by { assert forall|i: int| congr(#[trigger] co(current_poly@, i), co(layer_poly(p0, log0, b, k), i)) by { assert(congr(co(current_poly@, i), co(fold_of(old_poly, zeta@), i))); assert(congr(co(fold_of(old_poly, zeta@), i), co(layer_poly(p0, log0, b, k), i))); } }
    lemma_congr_mul(old_off, sq(off, k - 1), old_off, sq(off, k - 1));
    assert(fri_layer_list@[k] == current_layer);
    assert(b[k] == current_layer.merkle_tree.root@);
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] layers_ok(fri_layer_list@, j, p0, log0, off, ds) by {
        if j < k { assert(layers_ok(old_list, j, p0, log0, off, ds)); assert(fri_layer_list@[j] == old_list[j]); lemma_layer_poly_prefix(p0, log0, a, b, j); }
        else { lemma_layer_values(current_layer.evaluation@, current_poly@, layer_poly(p0, log0, b, k), coset_offset@, sq(off, k), halved(ds, k)); }
    }
}
//@ let last_value
proof {
    let m = fri_layer_list@.len() as int; let b = root_list(fri_layer_list@);
    lemma_fold_same(current_poly@, layer_poly(p0, log0, b, m - 1), zeta@, zeta_of(log0, b, m));
    let f = fold_of(current_poly@, zeta@);
    assert(congr(co(last_poly@, 0), co(f, 0)));
    assert(congr(co(f, 0), co(layer_poly(p0, log0, b, m), 0)));
    if p0.len() <= ipow(2, m as nat) { lemma_layer_len(p0, log0, b, m, m); assert(ipow(2, 0) == 1); }
}
//@ fn starks/fri/mod.rs fri_query_phase {"types": {"vo_0": "Vec<usize>", "vo_1": "Vec<FriDecommitment>", "layers_auth_paths_sym": "Vec<Proof>", "layers_auth_paths": "Vec<Proof>", "layers_evaluations": "Vec<FE>", "layers_evaluations_sym": "Vec<FE>"}}
requires 1 <= domain_size <= 0x4000_0000_0000_0000, forall|k: int| 0 <= k < fri_layers@.len() ==> layer_committed(#[trigger] fri_layers@[k]),
ensures
    fri_layers@.len() == 0 ==> ret.0@.len() == 0 && ret.1@.len() == 0 && final(transcript).log() == old(transcript).log(),
    fri_layers@.len() > 0 ==> {
        let n = air.s_options().fri_number_of_queries as int;
        &&& ret.0@.len() == n && ret.1@.len() == n && final(transcript).log() == samples(old(transcript).log(), n)
        &&& forall|s: int| 0 <= s < n ==> #[trigger] ret.1@[s] == index_of(digest(samples(old(transcript).log(), s))) % domain_size as int
        &&& forall|s: int| 0 <= s < n ==> query_holds(#[trigger] ret.0@[s], fri_layers@, ret.1@[s] as int)
    },
//@ loop 0
invariant vi_0 <= vn_0, vo_0@.len() == vi_0, transcript.log() == samples(old(transcript).log(), vi_0 as int),
    forall|s: int| 0 <= s < vi_0 ==> #[trigger] vo_0@[s] == index_of(digest(samples(old(transcript).log(), s))) % domain_size as int && vo_0@[s] < domain_size,
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == iotas@.len(), vo_1@.len() == vi_1, forall|s: int| 0 <= s < vi_1 ==> query_holds(#[trigger] vo_1@[s], fri_layers@, iotas@[s] as int),
decreases vn_1 - vi_1
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == fri_layers@.len(), layers_auth_paths@.len() == vi_2, layers_auth_paths_sym@.len() == vi_2, layers_evaluations@.len() == vi_2, layers_evaluations_sym@.len() == vi_2,
    *iota_s == iotas@[vj_1 as int], *iota_s < domain_size,
    forall|k: int| 0 <= k < vi_2 ==> #[trigger] query_layer(FriDecommitment { layers_auth_paths, layers_auth_paths_sym, layers_evaluations, layers_evaluations_sym }, fri_layers@, *iota_s as int, k),
decreases vn_2 - vi_2
//@ loopstart 2
let ghost before = FriDecommitment { layers_auth_paths, layers_auth_paths_sym, layers_evaluations, layers_evaluations_sym };
proof { assert(layer_committed(fri_layers@[vi_2 as int])); }
//@ loopend 2
proof {
    let now = FriDecommitment { layers_auth_paths, layers_auth_paths_sym, layers_evaluations, layers_evaluations_sym };
    assert forall|k: int| 0 <= k < vi_2 implies #[trigger] query_layer(now, fri_layers@, *iota_s as int, k) by {
        if k < vj_2 { assert(query_layer(before, fri_layers@, *iota_s as int, k)); }
    }
}
