//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include trans.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir"}, "paths": {"usize::from_be_bytes": "vx_usize_from_be"}, "methods": {"try_into": "fn vx_try_into"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/domain.rs Domain
//@ include air.rs
//@ include dom.rs
//@ raw
proof fn lemma_ipow_add(b: int, m: nat, n: nat) ensures ipow(b, m + n) == ipow(b, m) * ipow(b, n) decreases m {
    if m > 0 { lemma_ipow_add(b, (m - 1) as nat, n); assert(b * (ipow(b, (m - 1) as nat) * ipow(b, n)) == (b * ipow(b, (m - 1) as nat)) * ipow(b, n)) by (nonlinear_arith); } else { assert(1 * ipow(b, n) == ipow(b, n)); }
}
proof fn lemma_ipow_256(k: nat) ensures ipow(2, 8 * k) == ipow(256, k), ipow(256, k) > 0 decreases k {
    if k > 0 { lemma_ipow_256((k - 1) as nat); lemma_ipow_add(2, 8, (8 * (k - 1)) as nat); assert(ipow(2, 8) == 256) by (compute); }
}
proof fn lemma_low_bits(x: u8, b: u32) requires b <= 7 ensures
    (b == 0 ==> (x & 255u8) == x as int % ipow(2, 8)), b > 0 ==> (x & ((1u8 << ((8 - b) as u32)) - 1) as u8) == x as int % ipow(2, (8 - b) as nat), ipow(2, (8 - b) as nat) * ipow(2, b as nat) == 256, ipow(2, (8 - b) as nat) > 0, ipow(2, b as nat) > 0 {
    assert(ipow(2, 8) == 256 && ipow(2, 7) == 128 && ipow(2, 6) == 64 && ipow(2, 5) == 32 && ipow(2, 4) == 16 && ipow(2, 3) == 8 && ipow(2, 2) == 4 && ipow(2, 1) == 2 && ipow(2, 0) == 1) by (compute);
    assert((8 - b) as nat + b as nat == 8nat); lemma_ipow_add(2, (8 - b) as nat, b as nat);
    if b == 0 { assert((x & 255u8) == x) by (bit_vector); assert(x as int % 256 == x as int) by (nonlinear_arith) requires 0 <= x < 256; }
    else if b == 1 { assert((8 - b) as u32 == 7u32 && (8 - b) as nat == 7nat); assert((x & ((1u8 << 7u32) - 1) as u8) == x % 128) by (bit_vector); }
    else if b == 2 { assert((8 - b) as u32 == 6u32 && (8 - b) as nat == 6nat); assert((x & ((1u8 << 6u32) - 1) as u8) == x % 64) by (bit_vector); }
    else if b == 3 { assert((8 - b) as u32 == 5u32 && (8 - b) as nat == 5nat); assert((x & ((1u8 << 5u32) - 1) as u8) == x % 32) by (bit_vector); }
    else if b == 4 { assert((8 - b) as u32 == 4u32 && (8 - b) as nat == 4nat); assert((x & ((1u8 << 4u32) - 1) as u8) == x % 16) by (bit_vector); }
    else if b == 5 { assert((8 - b) as u32 == 3u32 && (8 - b) as nat == 3nat); assert((x & ((1u8 << 3u32) - 1) as u8) == x % 8) by (bit_vector); }
    else if b == 6 { assert((8 - b) as u32 == 2u32 && (8 - b) as nat == 2nat); assert((x & ((1u8 << 2u32) - 1) as u8) == x % 4) by (bit_vector); }
    else if b == 7 { assert((8 - b) as u32 == 1u32 && (8 - b) as nat == 1nat); assert((x & ((1u8 << 1u32) - 1) as u8) == x % 2) by (bit_vector); }
}
/// Clearing the first i bytes and the top b bits of byte i reduces the number modulo 2^(8 (31 - i) + 8 - b).
proof fn lemma_clear(s: Seq<u8>, t: Seq<u8>, i: int, b: int)
    requires s.len() == 32, t.len() == 32, 0 <= i < 32, 0 <= b <= 7, forall|j: int| 0 <= j < i ==> t[j] == 0, forall|j: int| i < j < 32 ==> t[j] == s[j],
        t[i] as int == s[i] as int % ipow(2, (8 - b) as nat), ipow(2, (8 - b) as nat) * ipow(2, b as nat) == 256, ipow(2, (8 - b) as nat) > 0,
    ensures be(t) == be(s) % ipow(2, (8 * (31 - i) + 8 - b) as nat)
{
    let k = (31 - i) as nat;
    let tail = s.subrange(i + 1, 32);
    let (q, c) = (ipow(2, (8 - b) as nat), ipow(256, k));
    assert(t.subrange(i + 1, 32) =~= tail);
    let one_s = s.subrange(i, i + 1); let one_t = t.subrange(i, i + 1);
    assert(s =~= s.subrange(0, i) + (one_s + tail)); assert(t =~= t.subrange(0, i) + (one_t + tail));
    lemma_be_cat(s.subrange(0, i), one_s + tail); lemma_be_cat(t.subrange(0, i), one_t + tail); lemma_be_cat(one_s, tail); lemma_be_cat(one_t, tail);
    lemma_be_bound(tail); lemma_ipow_256(k); lemma_ipow_add(2, 8 * k, (8 - b) as nat);
    assert(one_s.drop_last() =~= Seq::<u8>::empty() && one_t.drop_last() =~= Seq::<u8>::empty());
    assert(be(one_s) == s[i] as int && be(one_t) == t[i] as int) by { reveal_with_fuel(be, 3); }
    lemma_be_zero(t.subrange(0, i));
    assert(0 * ipow(256, (k + 1) as nat) == 0);
    let (pre, si, tl, m) = (be(s.subrange(0, i)), s[i] as int, be(tail), c * q);
    let u = ipow(2, b as nat);
    assert(ipow(256, (k + 1) as nat) == 256 * c);
    assert(si == q * (si / q) + si % q) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(si, q); }
    assert(0 <= si % q < q);
    lemma_clear_ring(pre, si, si / q, si % q, tl, c, q, u);
    assert(0 <= (si % q) * c + tl && (si % q) * c + tl < m) by (nonlinear_arith) requires 0 <= si % q <= q - 1, 0 <= tl < c, m == c * q;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(be(s), m, pre * u + si / q, (si % q) * c + tl);
}
proof fn lemma_clear_ring(pre: int, si: int, d: int, r: int, tl: int, c: int, q: int, u: int) requires q * u == 256, si == q * d + r
    ensures pre * (256 * c) + (si * c + tl) == (pre * u + d) * (c * q) + (r * c + tl)
{
    assert(pre * (256 * c) == (pre * u) * (c * q)) by (nonlinear_arith) requires q * u == 256;
    assert(si * c == d * (c * q) + r * c) by (nonlinear_arith) requires si == q * d + r;
    assert((pre * u + d) * (c * q) == (pre * u) * (c * q) + d * (c * q)) by (nonlinear_arith);
}
proof fn lemma_be_zero(s: Seq<u8>) requires forall|j: int| 0 <= j < s.len() ==> s[j] == 0 ensures be(s) == 0 decreases s.len() { if s.len() > 0 { lemma_be_zero(s.drop_last()); } }
//@ fn starks/transcript.rs randomness_to_field
ensures congr(ret@, field_of(old(randomness)@)),
//@ loop 0
invariant 0 <= bits_to_clear, bits_to_clear + 8 * i == 257 - field_bits(), 130 <= field_bits() <= 256, i <= 31,
    forall|j: int| 0 <= j < i ==> randomness@[j] == 0, forall|j: int| i <= j < 32 ==> randomness@[j] == old(randomness)@[j],
decreases bits_to_clear
//@ let mask
proof { lemma_low_bits(randomness@[i as int], bits_to_clear as u32); let x = bits_to_clear as u32;
    if x > 0 { assert(1u8 << ((8 - x) as u32) > 0) by (bit_vector) requires 0 < x <= 7; } }
//@ tail
proof { lemma_clear(old(randomness)@, randomness@, i as int, bits_to_clear as int); assert(randomness@.subrange(0, 32) =~= randomness@); }
//@ fn starks/transcript.rs transcript_to_field
ensures congr(ret@, field_of(digest(old(transcript).log()))), final(transcript).log() == old(transcript).log().push(Ev::Smp),
//@ fn starks/transcript.rs transcript_to_usize {"types": {"value": "[u8; 8]"}}
ensures ret == index_of(digest(old(transcript).log())), final(transcript).log() == old(transcript).log().push(Ev::Smp),
//@ fn starks/transcript.rs batch_sample_challenges {"types": {"vo_0": "Vec<FE>"}}
ensures ret@.len() == size, final(transcript).log() == samples(old(transcript).log(), size as int),
    forall|i: int| 0 <= i < size ==> congr((#[trigger] ret@[i])@, field_of(digest(samples(old(transcript).log(), i)))),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == size, vo_0@.len() == vi_0, transcript.log() == samples(old(transcript).log(), vi_0 as int),
    forall|i: int| 0 <= i < vi_0 ==> congr((#[trigger] vo_0@[i])@, field_of(digest(samples(old(transcript).log(), i)))),
decreases vn_0 - vi_0
//@ fn starks/transcript.rs sample_z_ood {"attrs": ["#[verifier::exec_allows_no_decreases_clause]"]}
ensures
    // never a point of either domain
    forall|i: int| 0 <= i < lde_roots_of_unity_coset@.len() ==> !congr(ret@, (#[trigger] lde_roots_of_unity_coset@[i])@),
    forall|i: int| 0 <= i < trace_roots_of_unity@.len() ==> !congr(ret@, (#[trigger] trace_roots_of_unity@[i])@),
    // the first challenge that is not
    exists|k: int| #[trigger] first_outside(old(transcript).log(), k, lde_roots_of_unity_coset@, trace_roots_of_unity@)
        && congr(ret@, field_of(digest(samples(old(transcript).log(), k)))) && final(transcript).log() == samples(old(transcript).log(), k + 1),
//@ bodystart
let ghost mut n: int = 0;
//@ loop 0
invariant n >= 0, transcript.log() == samples(old(transcript).log(), n), forall|j: int| 0 <= j < n ==> in_domains(#[trigger] field_of(digest(samples(old(transcript).log(), j))), lde_roots_of_unity_coset@, trace_roots_of_unity@),
//@ let value
let ghost n0 = n;
proof { n = n + 1; }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == lde_roots_of_unity_coset@.len(), n == n0 + 1, n0 >= 0, transcript.log() == samples(old(transcript).log(), n), congr(value@, field_of(digest(samples(old(transcript).log(), n0)))),
    forall|j: int| 0 <= j < n0 ==> in_domains(#[trigger] field_of(digest(samples(old(transcript).log(), j))), lde_roots_of_unity_coset@, trace_roots_of_unity@),
    va_1 ==> in_domains(value@, lde_roots_of_unity_coset@, trace_roots_of_unity@),
    !va_1 ==> forall|i: int| 0 <= i < vi_1 ==> !congr(value@, (#[trigger] lde_roots_of_unity_coset@[i])@),
decreases vn_1 - vi_1
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == trace_roots_of_unity@.len(), n == n0 + 1, n0 >= 0, transcript.log() == samples(old(transcript).log(), n), congr(value@, field_of(digest(samples(old(transcript).log(), n0)))),
    forall|j: int| 0 <= j < n0 ==> in_domains(#[trigger] field_of(digest(samples(old(transcript).log(), j))), lde_roots_of_unity_coset@, trace_roots_of_unity@),
    va_2 ==> in_domains(value@, lde_roots_of_unity_coset@, trace_roots_of_unity@),
    !va_2 ==> forall|i: int| 0 <= i < vi_2 ==> !congr(value@, (#[trigger] trace_roots_of_unity@[i])@),
    forall|i: int| 0 <= i < lde_roots_of_unity_coset@.len() ==> !congr(value@, (#[trigger] lde_roots_of_unity_coset@[i])@),
decreases vn_2 - vi_2
//@ after 2
proof { if !va_2 { assert(!in_domains(value@, lde_roots_of_unity_coset@, trace_roots_of_unity@)); assert(first_outside(old(transcript).log(), n0, lde_roots_of_unity_coset@, trace_roots_of_unity@)); } }
//@ fn starks/domain.rs Domain::new
requires is_pow2(air.s_trace_length()), air.s_trace_length() >= 2, is_pow2(air.s_options().blowup_factor as int), log2(air.s_trace_length()) + log2(air.s_options().blowup_factor as int) <= two_adicity(), log2(air.s_trace_length()) + log2(air.s_options().blowup_factor as int) <= 60,
ensures domain_of(ret, air),
//@ bodystart
proof { let (n, b) = (air.s_trace_length(), air.s_options().blowup_factor as int); lemma_pow2_mul(n, b); lemma_tz_log2(n); lemma_tz_log2(n * b); lemma_log2_bound(n * b); lemma_ipow2_mono(log2(n * b) as nat, 60); assert(ipow(2, 60) == 0x1000_0000_0000_0000) by (compute); assert(log2(n) == 1 + log2(n / 2)); lemma_log2_nonneg(n / 2); lemma_log2_nonneg(b); }
//@ tail
proof { assert forall|i: int| 0 <= i < trace_roots_of_unity@.len() implies congr((#[trigger] trace_roots_of_unity@[i])@, ipow(omega(log2(air.s_trace_length())), i as nat)) by { assert(1 * ipow(omega(log2(air.s_trace_length())), i as nat) == ipow(omega(log2(air.s_trace_length())), i as nat)); } }
//@ fn starks/prover.rs evaluate_polynomial_on_lde_domain {"types": {"vo_0": "Vec<FE>"}}
requires is_pow2(domain_size as int), is_pow2(blowup_factor as int), domain_size * blowup_factor >= 2, domain_size <= 0x4000_0000_0000_0000, p@.len() <= 0x4000_0000_0000_0000,
    fft_len(p@.len() as int, domain_size as int) * blowup_factor <= usize::MAX,
ensures log2(fft_len(p@.len() as int, domain_size as int) * blowup_factor) <= two_adicity() ==> ret.is_ok(),
    ret.is_ok() && log2(fft_len(p@.len() as int, domain_size as int) * blowup_factor) <= two_adicity() ==> on_domain(ret->Ok_0@, p@, offset@, domain_size * blowup_factor),
//@ bodystart
let ghost (n, m, b) = (fft_len(p@.len() as int, domain_size as int), domain_size as int, blowup_factor as int);
proof {
    lemma_next_pow2_is(if p@.len() > domain_size { p@.len() as int } else { domain_size as int });
    assert(m * b <= n * b) by (nonlinear_arith) requires m <= n, b >= 1;
    lemma_pow2_mul(n, b); lemma_pow2_mul(m, b); lemma_pow2_div(n, m); lemma_pow2_div(n * b, m * b);
    assert(n * b == (m * b) * (n / m)) by (nonlinear_arith) requires n == m * (n / m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * b, m * b, n / m, 0);
    assert(m * b > 0) by (nonlinear_arith) requires m >= 1, b >= 1;
}
//@ let step
proof {
    assert(step as int == (n * b) / (m * b));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * b, step as int, m * b, 0);
    assert((n * b + step - 1) / (step as int) == m * b) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * b + step - 1, step as int, m * b, step - 1); }
    if step == 1 { assert(n * b == m * b) by (nonlinear_arith) requires step * (m * b) == n * b, step == 1; if log2(n * b) <= two_adicity() { assert(on_domain(evaluations@, p@, offset@, m * b)); } }
}
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == m * b, vo_0@.len() == vi_0, step >= 1, step * (m * b) == evaluations@.len(), forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0@[i] == evaluations@[i * step],
decreases vn_0 - vi_0
//@ loopstart 0
proof { assert(vi_0 * step < evaluations@.len() && vi_0 * step >= 0) by (nonlinear_arith) requires 0 <= vi_0 < vn_0, vn_0 == m * b, step * (m * b) == evaluations@.len(), step >= 1; }
//@ after 0
proof {
    if log2(n * b) <= two_adicity() {
    let k = log2(m * b); let s = log2(n * b) - k; lemma_log2_bound(n * b); lemma_log2_bound(m * b); lemma_log2_bound(step as int);
    lemma_log2_nonneg(step as int);
    assert(k >= 1) by { lemma_log2_nonneg((m * b) / 2); }
    assert forall|i: int| 0 <= i < m * b implies congr((#[trigger] vo_0@[i])@, peval(p@, offset@ * ipow(omega(k), i as nat))) by {
        assert(0 <= i * step < n * b) by (nonlinear_arith) requires 0 <= i < m * b, step * (m * b) == n * b, step >= 1;
        assert(vo_0@[i] == evaluations@[i * step]);
        let w = omega(log2(n * b));
        assert(i * step == step * i) by (nonlinear_arith);
        lemma_ipow_mul(w, step as nat, i as nat);
        lemma_omega_up(k, s as nat);
        lemma_ipow_congr(ipow(w, step as nat), omega(k), i as nat);
        lemma_congr_mul(offset@, offset@, ipow(ipow(w, step as nat), i as nat), ipow(omega(k), i as nat));
        lemma_peval_x(p@, offset@ * ipow(w, (i * step) as nat), offset@ * ipow(omega(k), i as nat));
    }
    assert(vo_0@.len() == m * b);
    assert(on_domain(vo_0@, p@, offset@, m * b));
    }
}
//@ fn starks/prover.rs compute_lde_trace_evaluations {"collect_result": [0], "types": {"vo_0": "Vec<Vec<FE>>"}}
requires is_pow2(domain.interpolation_domain_size as int), is_pow2(domain.blowup_factor as int), domain.interpolation_domain_size * domain.blowup_factor >= 2,
    domain.interpolation_domain_size * domain.blowup_factor <= 0x4000_0000_0000_0000, log2(domain.interpolation_domain_size * domain.blowup_factor) <= two_adicity(),
    forall|i: int| 0 <= i < trace_polys@.len() ==> (#[trigger] trace_polys@[i])@.len() <= domain.interpolation_domain_size,
ensures ret@.len() == trace_polys@.len(),
    forall|i: int| 0 <= i < trace_polys@.len() ==> on_domain((#[trigger] ret@[i])@, trace_polys@[i]@, domain.coset_offset@, domain.interpolation_domain_size * domain.blowup_factor),
//@ bodystart
proof { let (n, b) = (domain.interpolation_domain_size as int, domain.blowup_factor as int); lemma_next_pow2(n); assert(n <= n * b) by (nonlinear_arith) requires n >= 0, b >= 1; assert(forall|l: int| l <= n ==> #[trigger] fft_len(l, n) == n); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == trace_polys@.len(), ve_0.is_none(), vo_0@.len() == vi_0,
    forall|i: int| 0 <= i < vi_0 ==> on_domain((#[trigger] vo_0@[i])@, trace_polys@[i]@, domain.coset_offset@, domain.interpolation_domain_size * domain.blowup_factor),
decreases vn_0 - vi_0
