// ---- prelude: what the prover's fourth round leaves ------------------------------------------------
/// The polynomial, layers, positions and challenges of the fourth round.
pub struct R4 { pub p: Seq<int>, pub l: Seq<FriLayer>, pub iotas: Seq<usize>, pub ge: int, pub go: int, pub gam: Seq<FE> }
pub open spec fn n_gammas(air: &VxAir) -> int { air.s_ctx().transition_offsets@.len() * air.s_ctx().trace_columns }
/// The histories before the FRI layers, before the grinding challenge and before the query positions.
pub open spec fn r4_fri(air: &VxAir, log0: Seq<Ev>) -> Seq<Ev> { samples(samples(log0, 2), n_gammas(air)) }
pub open spec fn r4_grind(air: &VxAir, log0: Seq<Ev>, l: Seq<FriLayer>, last: FE) -> Seq<Ev> { commit_log(r4_fri(air, log0), root_list(l), l.len() as int).push(Ev::Smp).push(Ev::App(fe_bytes(last))) }
pub open spec fn r4_query(air: &VxAir, log0: Seq<Ev>, l: Seq<FriLayer>, r: Round4) -> Seq<Ev> { r4_grind(air, log0, l, r.fri_last_value).push(Ev::Smp).push(Ev::App(be_bytes(r.nonce as int, 8))) }
/// The coefficients are the challenges that follow log0.
pub open spec fn gammas_drawn(air: &VxAir, log0: Seq<Ev>, w: R4) -> bool {
    congr(w.ge, field_of(digest(samples(log0, 0)))) && congr(w.go, field_of(digest(samples(log0, 1)))) && w.gam.len() == n_gammas(air)
    && forall|k: int| 0 <= k < w.gam.len() ==> congr((#[trigger] w.gam[k])@, field_of(digest(samples(samples(log0, 2), k))))
}
/// p is the DEEP combination wherever it is defined.
pub open spec fn deep_is(p: Seq<int>, t: Seq<Polynomial<FE>>, r2: Round2, r3: Round3, offs: Seq<usize>, z: int, g: int, ge: int, go: int, gam: Seq<FE>) -> bool {
    forall|x: int| regular(x, z, g, offs) ==> congr(#[trigger] peval(p, x),
        half_term(r2.composition_poly_even@, r3.composition_poly_even_ood_evaluation@, z * z, x, ge) + half_term(r2.composition_poly_odd@, r3.composition_poly_odd_ood_evaluation@, z * z, x, go)
        + deep_pcols(t, r3.trace_ood_evaluations@, offs, z, g, x, gam, t.len() as int))
}
pub open spec fn deep_len(p: Seq<int>, t: Seq<Polynomial<FE>>, r2: Round2) -> bool { forall|l: int| #[trigger] lens_within(t, r2.composition_poly_even@, r2.composition_poly_odd@, l) ==> p.len() <= l - 1 }
/// The layers commit to the foldings of p, and the value sent is what is left of it.
pub open spec fn fri_is(w: R4, log: Seq<Ev>, h: int, size: int, n: int, last: FE) -> bool {
    &&& w.l.len() == log2(n) && forall|k: int| 0 <= k < w.l.len() ==> #[trigger] layers_ok(w.l, k, w.p, log, h, size)
    &&& congr(last@, co(layer_poly(w.p, log, root_list(w.l), w.l.len() as int), 0))
    &&& w.p.len() <= n ==> layer_poly(w.p, log, root_list(w.l), w.l.len() as int).len() <= 1
}
pub open spec fn round4_ok(air: &VxAir, d: Domain, r1: Round1, r2: Round2, r3: Round3, z: int, log0: Seq<Ev>, r: Round4, w: R4) -> bool {
    let (n, h, nq) = (air.s_trace_length(), air.s_options().coset_offset as int, air.s_options().fri_number_of_queries as int);
    &&& gammas_drawn(air, log0, w) && deep_is(w.p, r1.trace_polys@, r2, r3, air.s_ctx().transition_offsets@, z, d.trace_primitive_root@, w.ge, w.go, w.gam) && deep_len(w.p, r1.trace_polys@, r2)
    &&& fri_is(w, r4_fri(air, log0), h, size_of(d), n, r.fri_last_value)
    &&& hashes(r.fri_layers_merkle_roots@) == root_list(w.l)
    &&& difficulty(digest(r4_grind(air, log0, w.l, r.fri_last_value)), r.nonce as int) >= air.s_options().grinding_factor
    &&& w.iotas.len() == nq && forall|s: int| 0 <= s < nq ==> #[trigger] w.iotas[s] == index_of(digest(samples(r4_query(air, log0, w.l, r), s))) % size_of(d)
    &&& r.query_list@.len() == nq && forall|s: int| 0 <= s < nq ==> query_holds(#[trigger] r.query_list@[s], w.l, w.iotas[s] as int)
    &&& r.deep_poly_openings@.len() == nq && forall|s: int| 0 <= s < nq ==> opens_row(#[trigger] r.deep_poly_openings@[s], r1, r2, w.iotas[s] as int)
}
/// Whatever the challenge, some nonce meets the difficulty.
pub open spec fn solvable(c: Seq<u8>, g: int) -> bool { exists|n: int| 0 <= n < u64::MAX && #[trigger] difficulty(c, n) >= g }
pub open spec fn nonces_exist(g: int) -> bool { forall|c: Seq<u8>| #[trigger] solvable(c, g) }
pub proof fn lemma_layers_committed(l: Seq<FriLayer>, k: int, p: Seq<int>, log: Seq<Ev>, h: int, size: int) requires layers_ok(l, k, p, log, h, size), is_pow2(size), size <= 0x4000_0000_0000_0000, 0 <= k < l.len(), k <= log2(size) ensures layer_committed(l[k]) { lemma_halved(size, k); }
