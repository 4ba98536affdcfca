//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include trans.rs
//@ include ser.rs
//@ config
{"rename": {"Proof": "Proof!"}, "methods": {"to_be_bytes": "vx_to_be", "extend": "fn vx_extend&mut ", "try_into": "fn vx_try_into", "or": "fn vx_or", "first": "fn vx_first&"}, "paths": {"usize::from_be_bytes": "vx_usize_from_be", "u64::from_be_bytes": "vx_u64_from_be", "FE::from_bytes_be": "vx_fe_from_be", "Vec::with_capacity": "vx_with_capacity"}}
//@ item starks/fri/fri_decommit.rs FriDecommitment
//@ item starks/frame.rs Frame
//@ item starks/proof/stark.rs DeepPolynomialOpenings
//@ item starks/proof/stark.rs StarkProof
//@ raw
/// The values the formats carry: counts and felts as integers (felts canonical), hashes as bytes.
pub ghost struct VFri { pub ps: Seq<Seq<Seq<u8>>>, pub es: Seq<int>, pub e: Seq<int>, pub p: Seq<Seq<Seq<u8>>> }
pub ghost struct VFrame { pub d: Seq<int>, pub cols: int }
pub ghost struct VOpen { pub p: Seq<Seq<u8>>, pub ev: int, pub od: int, pub ps: Seq<Seq<Seq<u8>>>, pub e: Seq<int> }
pub ghost struct VStark { pub len: int, pub roots: Seq<Seq<u8>>, pub frame: VFrame, pub croot: Seq<u8>, pub ev: int, pub od: int, pub layers: Seq<Seq<u8>>, pub last: int, pub queries: Seq<VFri>, pub opens: Seq<VOpen>, pub nonce: int }
pub open spec fn v_fri(x: FriDecommitment) -> VFri { VFri { ps: v_paths(x.layers_auth_paths_sym@), es: reps(x.layers_evaluations_sym@), e: reps(x.layers_evaluations@), p: v_paths(x.layers_auth_paths@) } }
pub open spec fn v_frame(x: Frame) -> VFrame { VFrame { d: reps(x.data@), cols: x.row_width as int } }
pub open spec fn v_open(x: DeepPolynomialOpenings) -> VOpen { VOpen { p: hashes(x.lde_composition_poly_proof.merkle_path@), ev: rep(x.lde_composition_poly_even_evaluation), od: rep(x.lde_composition_poly_odd_evaluation), ps: v_paths(x.lde_trace_merkle_proofs@), e: reps(x.lde_trace_evaluations@) } }
pub open spec fn v_fris(x: Seq<FriDecommitment>) -> Seq<VFri> { Seq::new(x.len(), |i: int| v_fri(x[i])) }
pub open spec fn v_opens(x: Seq<DeepPolynomialOpenings>) -> Seq<VOpen> { Seq::new(x.len(), |i: int| v_open(x[i])) }
pub open spec fn v_stark(x: StarkProof) -> VStark { VStark { len: x.trace_length as int, roots: hashes(x.lde_trace_merkle_roots@), frame: v_frame(x.trace_ood_frame_evaluations), croot: x.composition_poly_root@, ev: rep(x.composition_poly_even_ood_evaluation), od: rep(x.composition_poly_odd_ood_evaluation), layers: hashes(x.fri_layers_merkle_roots@), last: rep(x.fri_last_value), queries: v_fris(x.query_list@), opens: v_opens(x.deep_poly_openings@), nonce: x.nonce as int } }
pub proof fn lemma_fris_push(v: Seq<FriDecommitment>, x: FriDecommitment) ensures v_fris(v.push(x)) == v_fris(v).push(v_fri(x)) { assert(v_fris(v.push(x)) =~= v_fris(v).push(v_fri(x))); }
pub proof fn lemma_opens_push(v: Seq<DeepPolynomialOpenings>, x: DeepPolynomialOpenings) ensures v_opens(v.push(x)) == v_opens(v).push(v_open(x)) { assert(v_opens(v.push(x)) =~= v_opens(v).push(v_open(x))); }
/// Parsers.
pub open spec fn r_blob(s: Seq<u8>) -> R<Seq<u8>> { match r_int(s, 8) { None => None, Some((n, r)) => r_raw(r, n) } }
pub open spec fn r_last8(s: Seq<u8>) -> R<int> { if s.len() >= 8 { Some((be(s.subrange(s.len() - 8, s.len() as int)), Seq::empty())) } else { None } }
pub open spec fn f_fri() -> spec_fn(Seq<u8>) -> R<VFri> { |s: Seq<u8>| match r_blob(s) { None => None, Some((b, r)) => match r_fri(b) { None => None, Some(v) => Some((v, r)) } } }
pub open spec fn f_open() -> spec_fn(Seq<u8>) -> R<VOpen> { |s: Seq<u8>| match r_blob(s) { None => None, Some((b, r)) => match r_open(b) { None => None, Some(v) => Some((v, r)) } } }
pub ghost struct VHead { pub len: int, pub roots: Seq<Seq<u8>>, pub frame: VFrame, pub croot: Seq<u8>, pub w: int, pub ev: int, pub od: int }
#[verifier::opaque]
pub open spec fn t13x(h: VHead, layers: Seq<Seq<u8>>, last: int, queries: Seq<VFri>, s13: Seq<u8>) -> Option<VStark> {
    match r_int(s13, 8) { None => None, Some((n4, s14)) =>
    match r_list(s14, n4 as nat, f_open()) { None => None, Some((opens, s15)) =>
    match r_last8(s15) { None => None, Some((nonce, s16)) =>
    Some(VStark { len: h.len, roots: h.roots, frame: h.frame, croot: h.croot, ev: h.ev, od: h.od, layers, last, queries, opens, nonce })
    }}}
}
#[verifier::opaque]
pub open spec fn t11x(h: VHead, layers: Seq<Seq<u8>>, last: int, s11: Seq<u8>) -> Option<VStark> {
    match r_int(s11, 8) { None => None, Some((n3, s12)) =>
    match r_list(s12, n3 as nat, f_fri()) { None => None, Some((queries, s13)) =>
    t13x(h, layers, last, queries, s13)
    }}
}
#[verifier::opaque]
pub open spec fn t8x(h: VHead, s8: Seq<u8>) -> Option<VStark> {
    match r_int(s8, 8) { None => None, Some((n2, s9)) =>
    match r_list(s9, n2 as nat, f_hash()) { None => None, Some((layers, s10)) =>
    match r_fe(s10, h.w) { None => None, Some((last, s11)) =>
    t11x(h, layers, last, s11)
    }}}
}
#[verifier::opaque]
pub open spec fn t5x(len: int, roots: Seq<Seq<u8>>, frame: VFrame, croot: Seq<u8>, s5: Seq<u8>) -> Option<VStark> {
    match r_int(s5, 8) { None => None, Some((w, s6)) =>
    match r_fe(s6, w) { None => None, Some((ev, s7)) =>
    match r_fe(s7, w) { None => None, Some((od, s8)) =>
    t8x(VHead { len, roots, frame, croot, w, ev, od }, s8)
    }}}
}
#[verifier::opaque]
pub open spec fn t3x(len: int, roots: Seq<Seq<u8>>, s3: Seq<u8>) -> Option<VStark> {
    match r_blob(s3) { None => None, Some((fb, s4)) =>
    match r_frame(fb) { None => None, Some(frame) =>
    match r_raw(s4, 32) { None => None, Some((croot, s5)) =>
    t5x(len, roots, frame, croot, s5)
    }}}
}
pub open spec fn r_stark(s: Seq<u8>) -> Option<VStark> {
    match r_int(s, 8) { None => None, Some((len, s1)) =>
    match r_int(s1, 8) { None => None, Some((n1, s2)) =>
    match r_list(s2, n1 as nat, f_hash()) { None => None, Some((roots, s3)) =>
    t3x(len, roots, s3)
    }}}
}
pub open spec fn r_fri(s: Seq<u8>) -> Option<VFri> {
    match r_int(s, 8) { None => None, Some((n1, s1)) =>
    match r_list(s1, n1 as nat, f_path()) { None => None, Some((ps, s2)) =>
    match r_int(s2, 8) { None => None, Some((w, s3)) =>
    match r_int(s3, 8) { None => None, Some((n2, s4)) =>
    match r_list(s4, n2 as nat, f_felt(w)) { None => None, Some((es, s5)) =>
    match r_int(s5, 8) { None => None, Some((n3, s6)) =>
    match r_list(s6, n3 as nat, f_felt(w)) { None => None, Some((e, s7)) =>
    match r_int(s7, 8) { None => None, Some((n4, s8)) =>
    match r_list(s8, n4 as nat, f_path()) { None => None, Some((p, s9)) =>
    Some(VFri { ps, es, e, p })
    }}}}}}}}}
}
pub open spec fn r_frame(s: Seq<u8>) -> Option<VFrame> {
    match r_int(s, 8) { None => None, Some((n, s1)) =>
    match r_int(s1, 8) { None => None, Some((w, s2)) =>
    match r_list(s2, n as nat, f_felt(w)) { None => None, Some((d, s3)) =>
    match r_int(s3, 8) { None => None, Some((cols, s4)) =>
    Some(VFrame { d, cols })
    }}}}
}
pub open spec fn r_open(s: Seq<u8>) -> Option<VOpen> {
    match r_path(s) { None => None, Some((p, s1)) =>
    match r_int(s1, 8) { None => None, Some((w, s2)) =>
    match r_fe(s2, w) { None => None, Some((ev, s3)) =>
    match r_fe(s3, w) { None => None, Some((od, s4)) =>
    match r_int(s4, 8) { None => None, Some((n1, s5)) =>
    match r_list(s5, n1 as nat, f_path()) { None => None, Some((ps, s6)) =>
    match r_int(s6, 8) { None => None, Some((n2, s7)) =>
    match r_list(s7, n2 as nat, f_felt(w)) { None => None, Some((e, s8)) =>
    Some(VOpen { p, ev, od, ps, e })
    }}}}}}}}
}
/// Writers.
pub open spec fn fw(n: nat) -> int { if n == 0 { 0 } else { 32 } }
pub open spec fn e_fri(v: VFri) -> Seq<u8> {
    be8(v.ps.len() as int) + e_list(v.ps, w_path()) + be8(fw(v.e.len() + v.es.len())) + be8(v.es.len() as int) + e_list(v.es, w_felt()) + be8(v.e.len() as int) + e_list(v.e, w_felt()) + be8(v.p.len() as int) + e_list(v.p, w_path())
}
pub open spec fn e_frame(v: VFrame) -> Seq<u8> { be8(v.d.len() as int) + be8(fw(v.d.len())) + e_list(v.d, w_felt()) + be8(v.cols) }
pub open spec fn e_open(v: VOpen) -> Seq<u8> {
    e_path(v.p) + be8(32) + e_felt(v.ev) + e_felt(v.od) + be8(v.ps.len() as int) + e_list(v.ps, w_path()) + be8(v.e.len() as int) + e_list(v.e, w_felt())
}
pub open spec fn w_fri() -> spec_fn(VFri) -> Seq<u8> { |v: VFri| be8(e_fri(v).len() as int) + e_fri(v) }
pub open spec fn w_open() -> spec_fn(VOpen) -> Seq<u8> { |v: VOpen| be8(e_open(v).len() as int) + e_open(v) }
pub open spec fn e_stark(v: VStark) -> Seq<u8> {
    be8(v.len) + be8(v.roots.len() as int) + e_list(v.roots, w_hash()) + be8(e_frame(v.frame).len() as int) + e_frame(v.frame) + v.croot + be8(32) + e_felt(v.ev) + e_felt(v.od)
        + be8(v.layers.len() as int) + e_list(v.layers, w_hash()) + e_felt(v.last) + be8(v.queries.len() as int) + e_list(v.queries, w_fri()) + be8(v.opens.len() as int) + e_list(v.opens, w_open()) + be8(v.nonce)
}
/// Counts fit a word, hashes have 32 bytes, felts are canonical.
pub open spec fn fri_ok(v: VFri) -> bool { paths_ok(v.ps) && felts_ok(v.es) && felts_ok(v.e) && paths_ok(v.p) }
pub open spec fn frame_ok(v: VFrame) -> bool { felts_ok(v.d) && cnt(v.cols) }
pub open spec fn open_ok(v: VOpen) -> bool { hashes_ok(v.p) && fe_ok(v.ev) && fe_ok(v.od) && paths_ok(v.ps) && felts_ok(v.e) }
pub open spec fn fris_ok(v: Seq<VFri>) -> bool { cnt(v.len() as int) && forall|i: int| 0 <= i < v.len() ==> fri_ok(#[trigger] v[i]) && cnt(e_fri(v[i]).len() as int) }
pub open spec fn opens_ok(v: Seq<VOpen>) -> bool { cnt(v.len() as int) && forall|i: int| 0 <= i < v.len() ==> open_ok(#[trigger] v[i]) && cnt(e_open(v[i]).len() as int) }
pub open spec fn stark_ok(v: VStark) -> bool {
    cnt(v.len) && hashes_ok(v.roots) && frame_ok(v.frame) && cnt(e_frame(v.frame).len() as int) && v.croot.len() == 32 && fe_ok(v.ev) && fe_ok(v.od) && hashes_ok(v.layers) && fe_ok(v.last) && fris_ok(v.queries) && opens_ok(v.opens) && cnt(v.nonce)
}
pub broadcast proof fn lemma_subsub(s: Seq<u8>, b: int, c: int, d: int) requires 0 <= c <= d <= b <= s.len() ensures (#[trigger] s.subrange(0, b).subrange(c, d)) == s.subrange(c, d) { assert(s.subrange(0, b).subrange(c, d) =~= s.subrange(c, d)); }
pub proof fn lemma_felts_ok(v: Seq<FE>) requires cnt(v.len() as int) ensures felts_ok(reps(v)) { broadcast use axiom_P; assert forall|i: int| 0 <= i < reps(v).len() implies fe_ok(#[trigger] reps(v)[i]) by { vstd::arithmetic::div_mod::lemma_mod_bound(v[i]@, P()); } }
pub proof fn lemma_rep_ok(x: FE) ensures fe_ok(rep(x)) { broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_mod_bound(x@, P()); }
//@ fn starks/utils.rs serialize_proof
ensures ret@ == e_path(hashes(proof.merkle_path@)), hashes_ok(hashes(proof.merkle_path@)),
//@ before 0
let ghost g0 = bytes@;
proof { lemma_e_ends(hashes(proof.merkle_path@), w_hash(), bytes@); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == proof.merkle_path@.len(), bytes@ == g0 + e_list(hashes(proof.merkle_path@).take(vi_0 as int), w_hash()), 
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@;
//@ loopend 0
proof { lemma_e_next(hashes(proof.merkle_path@), vj_0 as int, w_hash()); assert(g0 + (e_list(hashes(proof.merkle_path@).take(vj_0 as int), w_hash()) + w_hash()(hashes(proof.merkle_path@)[vj_0 as int])) =~= h0 + w_hash()(hashes(proof.merkle_path@)[vj_0 as int]));  }
//@ fn starks/utils.rs deserialize_proof
ensures match r_path(bytes@) { None => ret.is_err(), Some((p, r)) => ret.is_ok() && hashes(ret->Ok_0.0.merkle_path@) == p && ret->Ok_0.1@ == r },
    ret.is_ok() ==> ret->Ok_0.1@.len() + ret->Ok_0.0.merkle_path@.len() + 8 <= bytes@.len(),
//@ bodystart
broadcast use lemma_subsub;
let ghost s0 = bytes@;
//@ before 0
proof { lemma_pre0(r_list(bytes@, vn_0 as nat, f_hash())); assert(hashes(merkle_path@) =~= Seq::empty()); }
let ghost g0 = bytes@;
//@ loop 0
invariant vi_0 <= vn_0, r_list(g0, vn_0 as nat, f_hash()) == pre(hashes(merkle_path@), r_list(bytes@, (vn_0 - vi_0) as nat, f_hash())), merkle_path@.len() + bytes@.len() <= g0.len(), g0.len() <= s0.len(),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@; let ghost a0 = merkle_path@;
proof { lemma_step(hashes(merkle_path@), bytes@, (vn_0 - vi_0) as nat, f_hash()); }
//@ loopend 0
proof { lemma_hashes_push(a0, merkle_path@.last()); assert(merkle_path@ =~= a0.push(merkle_path@.last())); }
//@ after 0
proof { lemma_done(hashes(merkle_path@), bytes@, f_hash()); }
//@ fn starks/fri/fri_decommit.rs FriDecommitment::serialize
ensures ret@ == e_fri(v_fri(*self)), fri_ok(v_fri(*self)),
//@ before 0
let ghost g0 = bytes@;
proof { lemma_e_ends(v_paths(self.layers_auth_paths_sym@), w_path(), bytes@); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.layers_auth_paths_sym@.len(), bytes@ == g0 + e_list(v_paths(self.layers_auth_paths_sym@).take(vi_0 as int), w_path()), forall|i: int| 0 <= i < vi_0 ==> hashes_ok(hashes((#[trigger] self.layers_auth_paths_sym@[i]).merkle_path@)),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@;
//@ loopend 0
proof { lemma_e_next(v_paths(self.layers_auth_paths_sym@), vj_0 as int, w_path()); assert(g0 + (e_list(v_paths(self.layers_auth_paths_sym@).take(vj_0 as int), w_path()) + w_path()(v_paths(self.layers_auth_paths_sym@)[vj_0 as int])) =~= h0 + w_path()(v_paths(self.layers_auth_paths_sym@)[vj_0 as int]));  }
//@ before 1
let ghost g1 = bytes@;
proof { lemma_e_ends(reps(self.layers_evaluations_sym@), w_felt(), bytes@); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == self.layers_evaluations_sym@.len(), bytes@ == g1 + e_list(reps(self.layers_evaluations_sym@).take(vi_1 as int), w_felt()), 
decreases vn_1 - vi_1,
//@ loopstart 1
let ghost h1 = bytes@;
//@ loopend 1
proof { lemma_e_next(reps(self.layers_evaluations_sym@), vj_1 as int, w_felt()); assert(g1 + (e_list(reps(self.layers_evaluations_sym@).take(vj_1 as int), w_felt()) + w_felt()(reps(self.layers_evaluations_sym@)[vj_1 as int])) =~= h1 + w_felt()(reps(self.layers_evaluations_sym@)[vj_1 as int]));  }
//@ before 2
let ghost g2 = bytes@;
proof { lemma_e_ends(reps(self.layers_evaluations@), w_felt(), bytes@); }
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == self.layers_evaluations@.len(), bytes@ == g2 + e_list(reps(self.layers_evaluations@).take(vi_2 as int), w_felt()), 
decreases vn_2 - vi_2,
//@ loopstart 2
let ghost h2 = bytes@;
//@ loopend 2
proof { lemma_e_next(reps(self.layers_evaluations@), vj_2 as int, w_felt()); assert(g2 + (e_list(reps(self.layers_evaluations@).take(vj_2 as int), w_felt()) + w_felt()(reps(self.layers_evaluations@)[vj_2 as int])) =~= h2 + w_felt()(reps(self.layers_evaluations@)[vj_2 as int]));  }
//@ before 3
let ghost g3 = bytes@;
proof { lemma_e_ends(v_paths(self.layers_auth_paths@), w_path(), bytes@); }
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == self.layers_auth_paths@.len(), bytes@ == g3 + e_list(v_paths(self.layers_auth_paths@).take(vi_3 as int), w_path()), forall|i: int| 0 <= i < vi_3 ==> hashes_ok(hashes((#[trigger] self.layers_auth_paths@[i]).merkle_path@)),
decreases vn_3 - vi_3,
//@ loopstart 3
let ghost h3 = bytes@;
//@ loopend 3
proof { lemma_e_next(v_paths(self.layers_auth_paths@), vj_3 as int, w_path()); assert(g3 + (e_list(v_paths(self.layers_auth_paths@).take(vj_3 as int), w_path()) + w_path()(v_paths(self.layers_auth_paths@)[vj_3 as int])) =~= h3 + w_path()(v_paths(self.layers_auth_paths@)[vj_3 as int]));  }
//@ tail
proof { lemma_felts_ok(self.layers_evaluations_sym@); lemma_felts_ok(self.layers_evaluations@); }
//@ fn starks/fri/fri_decommit.rs FriDecommitment::deserialize
ensures match r_fri(bytes@) { None => ret.is_err(), Some(v) => ret.is_ok() && v_fri(ret->Ok_0) == v },
//@ bodystart
broadcast use lemma_subsub;
let ghost s0 = bytes@;
//@ before 0
proof { lemma_pre0(r_list(bytes@, vn_0 as nat, f_path())); assert(v_paths(layers_auth_paths_sym@) =~= Seq::empty()); }
let ghost g0 = bytes@;
//@ loop 0
invariant vi_0 <= vn_0, r_list(g0, vn_0 as nat, f_path()) == pre(v_paths(layers_auth_paths_sym@), r_list(bytes@, (vn_0 - vi_0) as nat, f_path())), layers_auth_paths_sym@.len() + bytes@.len() <= g0.len(), g0.len() <= s0.len(),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@; let ghost a0 = layers_auth_paths_sym@;
proof { lemma_step(v_paths(layers_auth_paths_sym@), bytes@, (vn_0 - vi_0) as nat, f_path()); }
//@ loopend 0
proof { lemma_paths_push(a0, layers_auth_paths_sym@.last()); assert(layers_auth_paths_sym@ =~= a0.push(layers_auth_paths_sym@.last())); }
//@ after 0
proof { lemma_done(v_paths(layers_auth_paths_sym@), bytes@, f_path()); }
//@ before 1
proof { lemma_pre0(r_list(bytes@, vn_1 as nat, f_felt(felt_len as int))); assert(reps(layers_evaluations_sym@) =~= Seq::empty()); }
let ghost g1 = bytes@;
//@ loop 1
invariant vi_1 <= vn_1, r_list(g1, vn_1 as nat, f_felt(felt_len as int)) == pre(reps(layers_evaluations_sym@), r_list(bytes@, (vn_1 - vi_1) as nat, f_felt(felt_len as int))), layers_evaluations_sym@.len() + bytes@.len() <= g1.len(), g1.len() <= s0.len(),
decreases vn_1 - vi_1,
//@ loopstart 1
let ghost h1 = bytes@; let ghost a1 = layers_evaluations_sym@;
proof { lemma_step(reps(layers_evaluations_sym@), bytes@, (vn_1 - vi_1) as nat, f_felt(felt_len as int)); }
//@ loopend 1
proof { lemma_reps_push(a1, layers_evaluations_sym@.last()); assert(layers_evaluations_sym@ =~= a1.push(layers_evaluations_sym@.last())); }
//@ after 1
proof { lemma_done(reps(layers_evaluations_sym@), bytes@, f_felt(felt_len as int)); }
//@ before 2
proof { lemma_pre0(r_list(bytes@, vn_2 as nat, f_felt(felt_len as int))); assert(reps(layers_evaluations@) =~= Seq::empty()); }
let ghost g2 = bytes@;
//@ loop 2
invariant vi_2 <= vn_2, r_list(g2, vn_2 as nat, f_felt(felt_len as int)) == pre(reps(layers_evaluations@), r_list(bytes@, (vn_2 - vi_2) as nat, f_felt(felt_len as int))), layers_evaluations@.len() + bytes@.len() <= g2.len(), g2.len() <= s0.len(),
decreases vn_2 - vi_2,
//@ loopstart 2
let ghost h2 = bytes@; let ghost a2 = layers_evaluations@;
proof { lemma_step(reps(layers_evaluations@), bytes@, (vn_2 - vi_2) as nat, f_felt(felt_len as int)); }
//@ loopend 2
proof { lemma_reps_push(a2, layers_evaluations@.last()); assert(layers_evaluations@ =~= a2.push(layers_evaluations@.last())); }
//@ after 2
proof { lemma_done(reps(layers_evaluations@), bytes@, f_felt(felt_len as int)); }
//@ before 3
proof { lemma_pre0(r_list(bytes@, vn_3 as nat, f_path())); assert(v_paths(layers_auth_paths@) =~= Seq::empty()); }
let ghost g3 = bytes@;
//@ loop 3
invariant vi_3 <= vn_3, r_list(g3, vn_3 as nat, f_path()) == pre(v_paths(layers_auth_paths@), r_list(bytes@, (vn_3 - vi_3) as nat, f_path())), layers_auth_paths@.len() + bytes@.len() <= g3.len(), g3.len() <= s0.len(),
decreases vn_3 - vi_3,
//@ loopstart 3
let ghost h3 = bytes@; let ghost a3 = layers_auth_paths@;
proof { lemma_step(v_paths(layers_auth_paths@), bytes@, (vn_3 - vi_3) as nat, f_path()); }
//@ loopend 3
proof { lemma_paths_push(a3, layers_auth_paths@.last()); assert(layers_auth_paths@ =~= a3.push(layers_auth_paths@.last())); }
//@ after 3
proof { lemma_done(v_paths(layers_auth_paths@), bytes@, f_path()); }
//@ fn starks/frame.rs Frame::new
ensures ret.data == data, ret.row_width == row_width,
//@ fn starks/frame.rs Frame::serialize
ensures ret@ == e_frame(v_frame(*self)), frame_ok(v_frame(*self)),
//@ before 0
let ghost g0 = bytes@;
proof { lemma_e_ends(reps(self.data@), w_felt(), bytes@); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.data@.len(), bytes@ == g0 + e_list(reps(self.data@).take(vi_0 as int), w_felt()), 
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@;
//@ loopend 0
proof { lemma_e_next(reps(self.data@), vj_0 as int, w_felt()); assert(g0 + (e_list(reps(self.data@).take(vj_0 as int), w_felt()) + w_felt()(reps(self.data@)[vj_0 as int])) =~= h0 + w_felt()(reps(self.data@)[vj_0 as int]));  }
//@ tail
proof { lemma_felts_ok(self.data@); }
//@ fn starks/frame.rs Frame::deserialize
ensures match r_frame(bytes@) { None => ret.is_err(), Some(v) => ret.is_ok() && v_frame(ret->Ok_0) == v },
//@ bodystart
broadcast use lemma_subsub;
let ghost s0 = bytes@;
//@ before 0
proof { lemma_pre0(r_list(bytes@, vn_0 as nat, f_felt(felt_len as int))); assert(reps(data@) =~= Seq::empty()); }
let ghost g0 = bytes@;
//@ loop 0
invariant vi_0 <= vn_0, r_list(g0, vn_0 as nat, f_felt(felt_len as int)) == pre(reps(data@), r_list(bytes@, (vn_0 - vi_0) as nat, f_felt(felt_len as int))), data@.len() + bytes@.len() <= g0.len(), g0.len() <= s0.len(),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@; let ghost a0 = data@;
proof { lemma_step(reps(data@), bytes@, (vn_0 - vi_0) as nat, f_felt(felt_len as int)); }
//@ loopend 0
proof { lemma_reps_push(a0, data@.last()); assert(data@ =~= a0.push(data@.last())); }
//@ after 0
proof { lemma_done(reps(data@), bytes@, f_felt(felt_len as int)); }
//@ fn starks/proof/stark.rs DeepPolynomialOpenings::serialize
ensures ret@ == e_open(v_open(*self)), open_ok(v_open(*self)),
//@ before 0
let ghost g0 = bytes@;
proof { lemma_e_ends(v_paths(self.lde_trace_merkle_proofs@), w_path(), bytes@); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.lde_trace_merkle_proofs@.len(), bytes@ == g0 + e_list(v_paths(self.lde_trace_merkle_proofs@).take(vi_0 as int), w_path()), forall|i: int| 0 <= i < vi_0 ==> hashes_ok(hashes((#[trigger] self.lde_trace_merkle_proofs@[i]).merkle_path@)),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@;
//@ loopend 0
proof { lemma_e_next(v_paths(self.lde_trace_merkle_proofs@), vj_0 as int, w_path()); assert(g0 + (e_list(v_paths(self.lde_trace_merkle_proofs@).take(vj_0 as int), w_path()) + w_path()(v_paths(self.lde_trace_merkle_proofs@)[vj_0 as int])) =~= h0 + w_path()(v_paths(self.lde_trace_merkle_proofs@)[vj_0 as int]));  }
//@ before 1
let ghost g1 = bytes@;
proof { lemma_e_ends(reps(self.lde_trace_evaluations@), w_felt(), bytes@); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == self.lde_trace_evaluations@.len(), bytes@ == g1 + e_list(reps(self.lde_trace_evaluations@).take(vi_1 as int), w_felt()), 
decreases vn_1 - vi_1,
//@ loopstart 1
let ghost h1 = bytes@;
//@ loopend 1
proof { lemma_e_next(reps(self.lde_trace_evaluations@), vj_1 as int, w_felt()); assert(g1 + (e_list(reps(self.lde_trace_evaluations@).take(vj_1 as int), w_felt()) + w_felt()(reps(self.lde_trace_evaluations@)[vj_1 as int])) =~= h1 + w_felt()(reps(self.lde_trace_evaluations@)[vj_1 as int]));  }
//@ tail
proof { lemma_felts_ok(self.lde_trace_evaluations@); lemma_rep_ok(self.lde_composition_poly_even_evaluation); lemma_rep_ok(self.lde_composition_poly_odd_evaluation); }
//@ fn starks/proof/stark.rs DeepPolynomialOpenings::deserialize
ensures match r_open(bytes@) { None => ret.is_err(), Some(v) => ret.is_ok() && v_open(ret->Ok_0) == v },
//@ bodystart
broadcast use lemma_subsub;
let ghost s0 = bytes@;
//@ before 0
proof { lemma_pre0(r_list(bytes@, vn_0 as nat, f_path())); assert(v_paths(lde_trace_merkle_proofs@) =~= Seq::empty()); }
let ghost g0 = bytes@;
//@ loop 0
invariant vi_0 <= vn_0, r_list(g0, vn_0 as nat, f_path()) == pre(v_paths(lde_trace_merkle_proofs@), r_list(bytes@, (vn_0 - vi_0) as nat, f_path())), lde_trace_merkle_proofs@.len() + bytes@.len() <= g0.len(), g0.len() <= s0.len(),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@; let ghost a0 = lde_trace_merkle_proofs@;
proof { lemma_step(v_paths(lde_trace_merkle_proofs@), bytes@, (vn_0 - vi_0) as nat, f_path()); }
//@ loopend 0
proof { lemma_paths_push(a0, lde_trace_merkle_proofs@.last()); assert(lde_trace_merkle_proofs@ =~= a0.push(lde_trace_merkle_proofs@.last())); }
//@ after 0
proof { lemma_done(v_paths(lde_trace_merkle_proofs@), bytes@, f_path()); }
//@ before 1
proof { lemma_pre0(r_list(bytes@, vn_1 as nat, f_felt(felt_len as int))); assert(reps(lde_trace_evaluations@) =~= Seq::empty()); }
let ghost g1 = bytes@;
//@ loop 1
invariant vi_1 <= vn_1, r_list(g1, vn_1 as nat, f_felt(felt_len as int)) == pre(reps(lde_trace_evaluations@), r_list(bytes@, (vn_1 - vi_1) as nat, f_felt(felt_len as int))), lde_trace_evaluations@.len() + bytes@.len() <= g1.len(), g1.len() <= s0.len(),
decreases vn_1 - vi_1,
//@ loopstart 1
let ghost h1 = bytes@; let ghost a1 = lde_trace_evaluations@;
proof { lemma_step(reps(lde_trace_evaluations@), bytes@, (vn_1 - vi_1) as nat, f_felt(felt_len as int)); }
//@ loopend 1
proof { lemma_reps_push(a1, lde_trace_evaluations@.last()); assert(lde_trace_evaluations@ =~= a1.push(lde_trace_evaluations@.last())); }
//@ after 1
proof { lemma_done(reps(lde_trace_evaluations@), bytes@, f_felt(felt_len as int)); }
//@ fn starks/proof/stark.rs StarkProof::serialize
ensures ret@ == e_stark(v_stark(*self)), stark_ok(v_stark(*self)),
//@ before 0
let ghost g0 = bytes@;
proof { lemma_e_ends(hashes(self.lde_trace_merkle_roots@), w_hash(), bytes@); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.lde_trace_merkle_roots@.len(), bytes@ == g0 + e_list(hashes(self.lde_trace_merkle_roots@).take(vi_0 as int), w_hash()), 
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@;
//@ loopend 0
proof { lemma_e_next(hashes(self.lde_trace_merkle_roots@), vj_0 as int, w_hash()); assert(g0 + (e_list(hashes(self.lde_trace_merkle_roots@).take(vj_0 as int), w_hash()) + w_hash()(hashes(self.lde_trace_merkle_roots@)[vj_0 as int])) =~= h0 + w_hash()(hashes(self.lde_trace_merkle_roots@)[vj_0 as int]));  }
//@ before 1
let ghost g1 = bytes@;
proof { lemma_e_ends(hashes(self.fri_layers_merkle_roots@), w_hash(), bytes@); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == self.fri_layers_merkle_roots@.len(), bytes@ == g1 + e_list(hashes(self.fri_layers_merkle_roots@).take(vi_1 as int), w_hash()), 
decreases vn_1 - vi_1,
//@ loopstart 1
let ghost h1 = bytes@;
//@ loopend 1
proof { lemma_e_next(hashes(self.fri_layers_merkle_roots@), vj_1 as int, w_hash()); assert(g1 + (e_list(hashes(self.fri_layers_merkle_roots@).take(vj_1 as int), w_hash()) + w_hash()(hashes(self.fri_layers_merkle_roots@)[vj_1 as int])) =~= h1 + w_hash()(hashes(self.fri_layers_merkle_roots@)[vj_1 as int]));  }
//@ before 2
let ghost g2 = bytes@;
proof { lemma_e_ends(v_fris(self.query_list@), w_fri(), bytes@); }
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == self.query_list@.len(), bytes@ == g2 + e_list(v_fris(self.query_list@).take(vi_2 as int), w_fri()), forall|i: int| 0 <= i < vi_2 ==> fri_ok(v_fri(#[trigger] self.query_list@[i])) && cnt(e_fri(v_fri(self.query_list@[i])).len() as int),
decreases vn_2 - vi_2,
//@ loopstart 2
let ghost h2 = bytes@;
//@ loopend 2
proof { lemma_e_next(v_fris(self.query_list@), vj_2 as int, w_fri()); assert(g2 + (e_list(v_fris(self.query_list@).take(vj_2 as int), w_fri()) + w_fri()(v_fris(self.query_list@)[vj_2 as int])) =~= h2 + w_fri()(v_fris(self.query_list@)[vj_2 as int]));  }
//@ before 3
let ghost g3 = bytes@;
proof { lemma_e_ends(v_opens(self.deep_poly_openings@), w_open(), bytes@); }
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == self.deep_poly_openings@.len(), bytes@ == g3 + e_list(v_opens(self.deep_poly_openings@).take(vi_3 as int), w_open()), forall|i: int| 0 <= i < vi_3 ==> open_ok(v_open(#[trigger] self.deep_poly_openings@[i])) && cnt(e_open(v_open(self.deep_poly_openings@[i])).len() as int),
decreases vn_3 - vi_3,
//@ loopstart 3
let ghost h3 = bytes@;
//@ loopend 3
proof { lemma_e_next(v_opens(self.deep_poly_openings@), vj_3 as int, w_open()); assert(g3 + (e_list(v_opens(self.deep_poly_openings@).take(vj_3 as int), w_open()) + w_open()(v_opens(self.deep_poly_openings@)[vj_3 as int])) =~= h3 + w_open()(v_opens(self.deep_poly_openings@)[vj_3 as int]));  }
//@ tail
proof { lemma_rep_ok(self.composition_poly_even_ood_evaluation); lemma_rep_ok(self.composition_poly_odd_ood_evaluation); lemma_rep_ok(self.fri_last_value); }
//@ fn starks/proof/stark.rs StarkProof::deserialize {"types": {"composition_poly_root": "Commitment"}}
ensures match r_stark(bytes@) { None => ret.is_err(), Some(v) => ret.is_ok() && v_stark(ret->Ok_0) == v },
//@ bodystart
hide(r_list); hide(be); hide(r_frame); hide(r_fri); hide(r_open);
broadcast use lemma_subsub;
let ghost s0 = bytes@;
let ghost mut hd = arbitrary::<VHead>();
//@ let composition_poly_root
proof { assert(r_stark(s0) == t5x(trace_length as int, hashes(lde_trace_merkle_roots@), v_frame(trace_ood_frame_evaluations), composition_poly_root@, bytes@.subrange(32, bytes@.len() as int))); reveal(t5x); }
//@ let composition_poly_odd_ood_evaluation
proof { hd = VHead { len: trace_length as int, roots: hashes(lde_trace_merkle_roots@), frame: v_frame(trace_ood_frame_evaluations), croot: composition_poly_root@, w: felt_len as int, ev: rep(composition_poly_even_ood_evaluation), od: rep(composition_poly_odd_ood_evaluation) };
    assert(r_stark(s0) == t8x(hd, bytes@.subrange(felt_len as int, bytes@.len() as int))); reveal(t8x); }
//@ let fri_last_value
proof { assert(r_stark(s0) == t11x(hd, hashes(fri_layers_merkle_roots@), rep(fri_last_value), bytes@.subrange(felt_len as int, bytes@.len() as int))); reveal(t11x); }
//@ before 0
proof { lemma_pre0(r_list(bytes@, vn_0 as nat, f_hash())); assert(hashes(lde_trace_merkle_roots@) =~= Seq::empty()); }
let ghost g0 = bytes@;
//@ loop 0
invariant vi_0 <= vn_0, r_list(g0, vn_0 as nat, f_hash()) == pre(hashes(lde_trace_merkle_roots@), r_list(bytes@, (vn_0 - vi_0) as nat, f_hash())), lde_trace_merkle_roots@.len() + bytes@.len() <= g0.len(), g0.len() <= s0.len(),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = bytes@; let ghost a0 = lde_trace_merkle_roots@;
proof { lemma_step(hashes(lde_trace_merkle_roots@), bytes@, (vn_0 - vi_0) as nat, f_hash()); }
//@ loopend 0
proof { lemma_hashes_push(a0, lde_trace_merkle_roots@.last()); assert(lde_trace_merkle_roots@ =~= a0.push(lde_trace_merkle_roots@.last())); }
//@ after 0
proof { lemma_done(hashes(lde_trace_merkle_roots@), bytes@, f_hash()); }
proof { assert(r_stark(s0) == t3x(trace_length as int, hashes(lde_trace_merkle_roots@), bytes@)); reveal(t3x); }
//@ before 1
proof { lemma_pre0(r_list(bytes@, vn_1 as nat, f_hash())); assert(hashes(fri_layers_merkle_roots@) =~= Seq::empty()); }
let ghost g1 = bytes@;
//@ loop 1
invariant vi_1 <= vn_1, r_list(g1, vn_1 as nat, f_hash()) == pre(hashes(fri_layers_merkle_roots@), r_list(bytes@, (vn_1 - vi_1) as nat, f_hash())), fri_layers_merkle_roots@.len() + bytes@.len() <= g1.len(), g1.len() <= s0.len(),
decreases vn_1 - vi_1,
//@ loopstart 1
let ghost h1 = bytes@; let ghost a1 = fri_layers_merkle_roots@;
proof { lemma_step(hashes(fri_layers_merkle_roots@), bytes@, (vn_1 - vi_1) as nat, f_hash()); }
//@ loopend 1
proof { lemma_hashes_push(a1, fri_layers_merkle_roots@.last()); assert(fri_layers_merkle_roots@ =~= a1.push(fri_layers_merkle_roots@.last())); }
//@ after 1
proof { lemma_done(hashes(fri_layers_merkle_roots@), bytes@, f_hash()); }
//@ before 2
proof { lemma_pre0(r_list(bytes@, vn_2 as nat, f_fri())); assert(v_fris(query_list@) =~= Seq::empty()); }
let ghost g2 = bytes@;
//@ loop 2
invariant vi_2 <= vn_2, r_list(g2, vn_2 as nat, f_fri()) == pre(v_fris(query_list@), r_list(bytes@, (vn_2 - vi_2) as nat, f_fri())), query_list@.len() + bytes@.len() <= g2.len(), g2.len() <= s0.len(),
decreases vn_2 - vi_2,
//@ loopstart 2
let ghost h2 = bytes@; let ghost a2 = query_list@;
proof { lemma_step(v_fris(query_list@), bytes@, (vn_2 - vi_2) as nat, f_fri()); }
//@ loopend 2
proof { lemma_fris_push(a2, query_list@.last()); assert(query_list@ =~= a2.push(query_list@.last())); }
//@ after 2
proof { lemma_done(v_fris(query_list@), bytes@, f_fri()); }
proof { assert(r_stark(s0) == t13x(hd, hashes(fri_layers_merkle_roots@), rep(fri_last_value), v_fris(query_list@), bytes@)); reveal(t13x); }
//@ before 3
proof { lemma_pre0(r_list(bytes@, vn_3 as nat, f_open())); assert(v_opens(deep_poly_openings@) =~= Seq::empty()); }
let ghost g3 = bytes@;
//@ loop 3
invariant vi_3 <= vn_3, r_list(g3, vn_3 as nat, f_open()) == pre(v_opens(deep_poly_openings@), r_list(bytes@, (vn_3 - vi_3) as nat, f_open())), deep_poly_openings@.len() + bytes@.len() <= g3.len(), g3.len() <= s0.len(),
decreases vn_3 - vi_3,
//@ loopstart 3
let ghost h3 = bytes@; let ghost a3 = deep_poly_openings@;
proof { lemma_step(v_opens(deep_poly_openings@), bytes@, (vn_3 - vi_3) as nat, f_open()); }
//@ loopend 3
proof { lemma_opens_push(a3, deep_poly_openings@.last()); assert(deep_poly_openings@ =~= a3.push(deep_poly_openings@.last())); }
//@ after 3
proof { lemma_done(v_opens(deep_poly_openings@), bytes@, f_open()); }
//@ raw
pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
/// A blob with its length in front.
pub proof fn lemma_blob_back(b: Seq<u8>, rest: Seq<u8>) requires cnt(b.len() as int) ensures r_blob(be8(b.len() as int) + (b + rest)) == Some((b, rest)) { lemma_int_back8(b.len() as int, b + rest); lemma_raw_back(b, rest); }
pub proof fn lemma_felts_back0(p: Seq<int>, w: int, rest: Seq<u8>) requires felts_ok(p), p.len() > 0 ==> w == 32 ensures r_list(e_list(p, w_felt()) + rest, p.len(), f_felt(w)) == Some((p, rest))
{ if p.len() > 0 { lemma_felts_back(p, rest); } else { assert(Seq::<u8>::empty() + rest =~= rest); assert(p =~= Seq::empty()); } }
/// Reading back what was written gives the value again: the round trip of each format.
pub proof fn theorem_fri_round_trip(v: VFri) requires fri_ok(v) ensures r_fri(e_fri(v)) == Some(v)
{
    let z = Seq::<u8>::empty();
    let w = fw(v.e.len() + v.es.len());
    let t8 = e_list(v.p, w_path()) + z; let t7 = be8(v.p.len() as int) + t8; let t6 = e_list(v.e, w_felt()) + t7; let t5 = be8(v.e.len() as int) + t6;
    let t4 = e_list(v.es, w_felt()) + t5; let t3 = be8(v.es.len() as int) + t4; let t2 = be8(w) + t3; let t1 = e_list(v.ps, w_path()) + t2; let t0 = be8(v.ps.len() as int) + t1;
    assert(e_fri(v) == t0) by { broadcast use lemma_assoc; assert(e_list(v.p, w_path()) + z =~= e_list(v.p, w_path())); }
    lemma_int_back8(v.ps.len() as int, t1); lemma_paths_back(v.ps, t2); lemma_int_back8(w, t3); lemma_int_back8(v.es.len() as int, t4); lemma_felts_back0(v.es, w, t5);
    lemma_int_back8(v.e.len() as int, t6); lemma_felts_back0(v.e, w, t7); lemma_int_back8(v.p.len() as int, t8); lemma_paths_back(v.p, z);
}
pub proof fn theorem_frame_round_trip(v: VFrame) requires frame_ok(v) ensures r_frame(e_frame(v)) == Some(v)
{
    let z = Seq::<u8>::empty();
    let w = fw(v.d.len());
    let t3 = be8(v.cols) + z; let t2 = e_list(v.d, w_felt()) + t3; let t1 = be8(w) + t2; let t0 = be8(v.d.len() as int) + t1;
    assert(e_frame(v) == t0) by { broadcast use lemma_assoc; assert(be8(v.cols) + z =~= be8(v.cols)); }
    lemma_int_back8(v.d.len() as int, t1); lemma_int_back8(w, t2); lemma_felts_back0(v.d, w, t3); lemma_int_back8(v.cols, z);
}
pub proof fn theorem_open_round_trip(v: VOpen) requires open_ok(v) ensures r_open(e_open(v)) == Some(v)
{
    let z = Seq::<u8>::empty();
    let t7 = e_list(v.e, w_felt()) + z; let t6 = be8(v.e.len() as int) + t7; let t5 = e_list(v.ps, w_path()) + t6; let t4 = be8(v.ps.len() as int) + t5;
    let t3 = e_felt(v.od) + t4; let t2 = e_felt(v.ev) + t3; let t1 = be8(32) + t2; let t0 = e_path(v.p) + t1;
    assert(e_open(v) == t0) by { broadcast use lemma_assoc; assert(e_list(v.e, w_felt()) + z =~= e_list(v.e, w_felt())); }
    lemma_path_back(v.p, t1); lemma_int_back8(32, t2); lemma_fe_back(v.ev, t3); lemma_fe_back(v.od, t4); lemma_int_back8(v.ps.len() as int, t5); lemma_paths_back(v.ps, t6);
    lemma_int_back8(v.e.len() as int, t7); lemma_felts_back(v.e, z);
}
pub proof fn lemma_fris_back(p: Seq<VFri>, rest: Seq<u8>) requires fris_ok(p) ensures r_list(e_list(p, w_fri()) + rest, p.len(), f_fri()) == Some((p, rest))
{
    assert forall|i: int| 0 <= i < p.len() implies reads(#[trigger] p[i], w_fri(), f_fri()) by {
        assert(fri_ok(p[i]) && cnt(e_fri(p[i]).len() as int));
        theorem_fri_round_trip(p[i]);
        assert forall|r: Seq<u8>| #[trigger] f_fri()(w_fri()(p[i]) + r) == Some((p[i], r)) by {
            lemma_assoc(be8(e_fri(p[i]).len() as int), e_fri(p[i]), r);
            lemma_blob_back(e_fri(p[i]), r);
        }
    }
    lemma_list_back(p, w_fri(), f_fri(), rest);
}
pub proof fn lemma_opens_back(p: Seq<VOpen>, rest: Seq<u8>) requires opens_ok(p) ensures r_list(e_list(p, w_open()) + rest, p.len(), f_open()) == Some((p, rest))
{
    assert forall|i: int| 0 <= i < p.len() implies reads(#[trigger] p[i], w_open(), f_open()) by {
        assert(open_ok(p[i]) && cnt(e_open(p[i]).len() as int));
        theorem_open_round_trip(p[i]);
        assert forall|r: Seq<u8>| #[trigger] f_open()(w_open()(p[i]) + r) == Some((p[i], r)) by {
            lemma_assoc(be8(e_open(p[i]).len() as int), e_open(p[i]), r);
            lemma_blob_back(e_open(p[i]), r);
        }
    }
    lemma_list_back(p, w_open(), f_open(), rest);
}
pub proof fn theorem_stark_round_trip(v: VStark) requires stark_ok(v) ensures r_stark(e_stark(v)) == Some(v)
{
    let t16 = be8(v.nonce); let t15 = e_list(v.opens, w_open()) + t16; let t14 = be8(v.opens.len() as int) + t15; let t13 = e_list(v.queries, w_fri()) + t14; let t12 = be8(v.queries.len() as int) + t13;
    let t11 = e_felt(v.last) + t12; let t10 = e_list(v.layers, w_hash()) + t11; let t9 = be8(v.layers.len() as int) + t10; let t8 = e_felt(v.od) + t9; let t7 = e_felt(v.ev) + t8; let t6 = be8(32) + t7;
    let t5 = v.croot + t6; let t4 = e_frame(v.frame) + t5; let t3 = be8(e_frame(v.frame).len() as int) + t4; let t2 = e_list(v.roots, w_hash()) + t3; let t1 = be8(v.roots.len() as int) + t2; let t0 = be8(v.len) + t1;
    assert(e_stark(v) == t0) by {
        let l0 = be8(v.len); let l1 = l0 + be8(v.roots.len() as int); let l2 = l1 + e_list(v.roots, w_hash()); let l3 = l2 + be8(e_frame(v.frame).len() as int); let l4 = l3 + e_frame(v.frame); let l5 = l4 + v.croot; let l6 = l5 + be8(32); let l7 = l6 + e_felt(v.ev); let l8 = l7 + e_felt(v.od); let l9 = l8 + be8(v.layers.len() as int); let l10 = l9 + e_list(v.layers, w_hash()); let l11 = l10 + e_felt(v.last); let l12 = l11 + be8(v.queries.len() as int); let l13 = l12 + e_list(v.queries, w_fri()); let l14 = l13 + be8(v.opens.len() as int); let l15 = l14 + e_list(v.opens, w_open());
        lemma_assoc(l14, e_list(v.opens, w_open()), t16); lemma_assoc(l13, be8(v.opens.len() as int), t15); lemma_assoc(l12, e_list(v.queries, w_fri()), t14); lemma_assoc(l11, be8(v.queries.len() as int), t13); lemma_assoc(l10, e_felt(v.last), t12); lemma_assoc(l9, e_list(v.layers, w_hash()), t11); lemma_assoc(l8, be8(v.layers.len() as int), t10); lemma_assoc(l7, e_felt(v.od), t9); lemma_assoc(l6, e_felt(v.ev), t8); lemma_assoc(l5, be8(32), t7); lemma_assoc(l4, v.croot, t6); lemma_assoc(l3, e_frame(v.frame), t5); lemma_assoc(l2, be8(e_frame(v.frame).len() as int), t4); lemma_assoc(l1, e_list(v.roots, w_hash()), t3); lemma_assoc(l0, be8(v.roots.len() as int), t2);
    }
    let hd = VHead { len: v.len, roots: v.roots, frame: v.frame, croot: v.croot, w: 32, ev: v.ev, od: v.od };
    assert(r_stark(t0) == t3x(v.len, v.roots, t3)) by { lemma_int_back8(v.len, t1); lemma_int_back8(v.roots.len() as int, t2); lemma_hashes_back(v.roots, t3); }
    assert(t3x(v.len, v.roots, t3) == t5x(v.len, v.roots, v.frame, v.croot, t6)) by { reveal(t3x); lemma_blob_back(e_frame(v.frame), t5); theorem_frame_round_trip(v.frame); lemma_raw_back(v.croot, t6); }
    assert(t5x(v.len, v.roots, v.frame, v.croot, t6) == t8x(hd, t9)) by { reveal(t5x); lemma_int_back8(32, t7); lemma_fe_back(v.ev, t8); lemma_fe_back(v.od, t9); }
    assert(t8x(hd, t9) == t11x(hd, v.layers, v.last, t12)) by { reveal(t8x); lemma_int_back8(v.layers.len() as int, t10); lemma_hashes_back(v.layers, t11); lemma_fe_back(v.last, t12); }
    assert(t11x(hd, v.layers, v.last, t12) == t13x(hd, v.layers, v.last, v.queries, t14)) by { reveal(t11x); lemma_int_back8(v.queries.len() as int, t13); lemma_fris_back(v.queries, t14); }
    assert(t13x(hd, v.layers, v.last, v.queries, t14) == Some(v)) by {
        reveal(t13x); lemma_int_back8(v.opens.len() as int, t15); lemma_opens_back(v.opens, t16);
        assert(ipow(256, 8) == 0x1_0000_0000_0000_0000) by (compute);
        axiom_be_bytes(v.nonce, 8);
        assert(t16.subrange(t16.len() - 8, t16.len() as int) =~= t16);
    }
}
