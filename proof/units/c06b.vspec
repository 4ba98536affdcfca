//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include map.rs
//@ include entries.rs
//@ include mapprod.rs
//@ include uint.rs
//@ consts cairo/air.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/air.rs MemorySegment
//@ raw
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
use std::ops::Range;
//@ item cairo/air.rs PublicInputs
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item cairo/air.rs CairoAIR
//@ item cairo/air.rs CairoRAPChallenges noclone
//@ item starks/trace.rs TraceTable
//@ include table.rs
//@ include auxt.rs
//@ include rc.rs
//@ use c08 TraceTable::get_cols
//@ use c08 TraceTable::n_rows
//@ use c08 TraceTable::new
//@ use c07 generate_range_check_permutation_argument_column
//@ fn cairo/air.rs get_pub_memory_addrs {"ranges": ["output_range"], "types": {"vo_0": "Vec<FE>", "vo_2": "Vec<FE>"}}
requires range_ok(match output_range { Some(o) => Some(*o), None => None }, public_input.public_memory@.dom().len() as int), public_input.public_memory@.dom().len() < u64::MAX,
ensures ret@.len() == public_input.public_memory@.dom().len(),
    forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == pub_addr(match output_range { Some(o) => Some(*o), None => None }, ret@.len() as int, i),
//@ loop 0
invariant 1 <= vi_0 <= vn_0 + 1, vn_0 == program_section, vo_0@.len() == vi_0 - 1, forall|i: int| 0 <= i < vo_0@.len() ==> (#[trigger] vo_0@[i])@ == i + 1,
decreases vn_0 + 1 - vi_0
//@ loop 1
invariant output_range.start <= vi_1 <= vn_1, vn_1 == output_range.end, vo_0@.len() == program_section + (vi_1 - output_range.start), forall|i: int| 0 <= i < vo_0@.len() ==> (#[trigger] vo_0@[i])@ == pub_addr(Some(*output_range), public_memory_len as int, i),
decreases vn_1 - vi_1
//@ loop 2
invariant 1 <= vi_2 <= vn_2 + 1, vn_2 == public_memory_len, vo_2@.len() == vi_2 - 1, forall|i: int| 0 <= i < vo_2@.len() ==> (#[trigger] vo_2@[i])@ == i + 1,
decreases vn_2 + 1 - vi_2
//@ fn cairo/air.rs add_pub_memory_in_public_input_section
requires addresses@.len() == values@.len(), public_ok(public_input), public_input.public_memory@.dom().len() <= addresses@.len(),
ensures with_public(addresses@, values@, public_input, ret.0@, ret.1@),
//@ bodystart
broadcast use axiom_P;
let ghost n = public_input.public_memory@.dom().len() as int;
let ghost r = out_range(public_input);
let ghost k = addresses@.len() - n;
//@ loop 0
invariant public_input_section == k, k <= vi_0 <= vn_0, vn_0 == a_aux@.len(), a_aux@.len() == addresses@.len(), v_aux@.len() == values@.len(), values@.len() == addresses@.len(), 0 <= k, n == addresses@.len() - k, n == public_input.public_memory@.dom().len(),
    forall|i: int| 0 <= i < k ==> #[trigger] a_aux@[i] == addresses@[i],
    forall|i: int| k <= i < vn_0 ==> (#[trigger] a_aux@[i])@ == pub_addr(r, n, i - k),
    forall|i: int| 0 <= i < k || vi_0 <= i < vn_0 ==> #[trigger] v_aux@[i] == values@[i],
    forall|i: int| k <= i < vi_0 ==> #[trigger] v_aux@[i] == public_input.public_memory@[pub_addr(r, n, i - k)],
decreases vn_0 - vi_0
//@ loopstart 0
proof { let i = vi_0 as int; assert(a_aux@[i]@ == pub_addr(r, n, i - k)); lemma_pub_addr_small(r, n, i - k); vstd::arithmetic::div_mod::lemma_small_mod(pub_addr(r, n, i - k) as nat, P() as nat); assert(public_input.public_memory@.dom().contains(pub_addr(r, n, i - k))); }
//@ fn cairo/air.rs sort_columns_by_memory_address {"byval": ["values"], "types": {"tuples": "Vec<(FE, FE)>"}, "methods": {"cmp": "vx_cmp", "sort_by": "fn vx_sort_by&mut "}, "closures": [{"params": ["&(FE, FE)", "&(FE, FE)"], "ret": "k: core::cmp::Ordering", "ensures": "k == ucmp(rep(vp_0.0), rep(vp_1.0))"}]}
requires adresses@.len() == values@.len(),
ensures ret.0@.len() == adresses@.len(), ret.1@.len() == adresses@.len(), sorted_reps(ret.0@), pairs(ret.0@, ret.1@).to_multiset() == pairs(adresses@, values@).to_multiset(),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == adresses@.len(), vo_0@.len() == vi_0, forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0@[i] == (adresses@[i], values@[i]),
decreases vn_0 - vi_0
//@ let tuples
proof { assert(tuples@ =~= pairs(adresses@, values@)); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == tuples@.len(), vo_1_0@.len() == vi_1, vo_1_1@.len() == vi_1, forall|i: int| 0 <= i < vi_1 ==> #[trigger] tuples@[i] == (vo_1_0@[i], vo_1_1@[i]),
decreases vn_1 - vi_1
//@ tail
proof { assert(pairs(vx_tail.0@, vx_tail.1@) =~= tuples@); assert forall|i: int, j: int| 0 <= i <= j < vx_tail.0@.len() implies rep(vx_tail.0@[i]) <= rep(vx_tail.0@[j]) by { assert(tuples@[i] == (vx_tail.0@[i], vx_tail.1@[i])); assert(tuples@[j] == (vx_tail.0@[j], vx_tail.1@[j])); } }
//@ fn cairo/air.rs generate_memory_permutation_argument_column {"types": {"vo_0": "Vec<FE>", "vo_1": "Vec<FE>"}}
requires addresses_original@.len() == addresses_sorted@.len(), values_original@.len() == addresses_sorted@.len(), values_sorted@.len() == addresses_sorted@.len(),
    forall|i: int| 0 <= i < addresses_sorted@.len() ==> !congr(#[trigger] factor_at(pairs(addresses_sorted@, values_sorted@), rap_challenges.z_memory@, rap_challenges.alpha_memory@, i), 0),
ensures running(ret@, pairs(addresses_sorted@, values_sorted@), pairs(addresses_original@, values_original@), rap_challenges.z_memory@, rap_challenges.alpha_memory@),
//@ bodystart
let ghost (zz, al) = (rap_challenges.z_memory@, rap_challenges.alpha_memory@);
let ghost (so, or) = (pairs(addresses_sorted@, values_sorted@), pairs(addresses_original@, values_original@));
//@ let denom
let ghost d0 = denom@;
assert forall|i: int| #![auto] 0 <= i < d0.len() implies !congr(d0[i]@, 0) by { assert(d0[i]@ == factor_at(so, zz, al, i)); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == addresses_sorted@.len(), vo_0@.len() == vi_0, z == rap_challenges.z_memory, alpha == rap_challenges.alpha_memory, forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0@[i])@ == factor_at(so, zz, al, i),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == addresses_original@.len(), vn_1 == denom@.len(), vn_1 == d0.len(), vo_1@.len() == vi_1, z == rap_challenges.z_memory, alpha == rap_challenges.alpha_memory,
    forall|i: int| 0 <= i < vn_1 ==> (#[trigger] d0[i])@ == factor_at(so, zz, al, i),
    forall|i: int| 0 <= i < vn_1 ==> congr(#[trigger] denom@[i]@ * d0[i]@, 1),
    congr(vs_1@ * pairs_prod(so, zz, al, vi_1 as int), pairs_prod(or, zz, al, vi_1 as int)),
    forall|i: int| 0 <= i < vi_1 ==> congr((#[trigger] vo_1@[i])@ * pairs_prod(so, zz, al, i + 1), pairs_prod(or, zz, al, i + 1)),
decreases vn_1 - vi_1
//@ loopend 1
proof { let j = vj_1 as int; lemma_prod_step(ret@, pairs_prod(so, zz, al, j), pairs_prod(or, zz, al, j), factor_at(or, zz, al, j), d0[j]@, den_i@, vs_1@); }
//@ fn cairo/air.rs AIR for CairoAIR::number_auxiliary_rap_columns
ensures ret == 18
//@ fn cairo/air.rs AIR for CairoAIR::build_auxiliary_trace {"isolate": true, "methods": {"into": "fn vx_u16_from", "sort": "fn vx_sort_u16&mut "}, "types": {"vo_0": "Vec<u16>", "vo_1": "Vec<FE>"}}
requires main_trace.wf(), main_trace.n_cols > OFF_OP1, 0 < main_trace.nr() <= 0x0100_0000_0000_0000, public_ok(&self.pub_inputs), self.pub_inputs.public_memory@.dom().len() <= 4 * main_trace.nr(),
    nonzero_factors(*main_trace, &self.pub_inputs, *rap_challenges),
ensures ret.wf(), ret.n_cols == 18, ret.nr() == main_trace.nr(), aux_memory(*main_trace, &self.pub_inputs, *rap_challenges, ret), aux_range_check(*main_trace, *rap_challenges, ret),
//@ let addresses_original
let ghost (ac, vc, oc) = (access_cols(), value_cols(), offset_cols());
let ghost m = *main_trace;
let ghost nr = m.nr();
assert(ac.len() == 4 && vc.len() == 4 && oc.len() == 3);
let ghost ao = addresses_original@;
let ghost sub0 = TraceTable { table: addresses_original, n_cols: 4 };
proof { assert forall|r: int, k: int| 0 <= r < nr && 0 <= k < 4 implies #[trigger] gcell(ao, 4, r, k) == m.cell(r, ac[k]) by { assert(sub0.cell(r, k) == m.cell(r, ac[k])); } lemma_flat(ao, m, ac); assert(nr * ac.len() == 4 * nr) by (nonlinear_arith) requires ac.len() == 4; assert(ao.len() == 4 * nr); }
//@ let values_original
let ghost vo = values_original@;
let ghost sub1 = TraceTable { table: values_original, n_cols: 4 };
proof { assert forall|r: int, k: int| 0 <= r < nr && 0 <= k < 4 implies #[trigger] gcell(vo, 4, r, k) == m.cell(r, vc[k]) by { assert(sub1.cell(r, k) == m.cell(r, vc[k])); } lemma_flat(vo, m, vc); assert(nr * vc.len() == 4 * nr) by (nonlinear_arith) requires vc.len() == 4; assert(vo.len() == 4 * nr); }
//@ let values
let ghost (a2, v2) = (addresses@, values@);
//@ let values#2
let ghost (sa, sv) = (addresses@, values@);
proof { lemma_sorted_nonzero(m, &self.pub_inputs, *rap_challenges, a2, v2, sa, sv); }
//@ let permutation_col
let ghost pc = permutation_col@;
//@ let offsets_original
let ghost of = offsets_original@;
let ghost sub2 = TraceTable { table: offsets_original, n_cols: 3 };
proof { assert forall|r: int, k: int| 0 <= r < nr && 0 <= k < 3 implies #[trigger] gcell(of, 3, r, k) == m.cell(r, oc[k]) by { assert(sub2.cell(r, k) == m.cell(r, oc[k])); } lemma_flat(of, m, oc); assert(nr * oc.len() == 3 * nr) by (nonlinear_arith) requires oc.len() == 3; assert(of.len() == 3 * nr); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == of.len(), of == offsets_original@, vo_0@.len() == vi_0, forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0@[i]) == off16(of[i]),
decreases vn_0 - vi_0
//@ let offsets_sorted
let ghost u16s = offsets_sorted@;
proof { assert(u16s =~= offs16(of)); }
//@ let offsets_sorted#2
let ghost os = offsets_sorted@;
proof { assert forall|i: int| 0 <= i < os.len() implies !congr(rap_challenges.z_range_check@, (#[trigger] os[i])@) by {
    assert(s16.contains(s16[i])); lemma_same_elems(s16, u16s); let j = choose|j: int| 0 <= j < u16s.len() && u16s[j] == s16[i]; assert(of == flat(m, offset_cols())); assert(0 <= j < 3 * nr); assert(!congr(rap_challenges.z_range_check@, off16(flat(m, offset_cols())[j]))); assert(off16(of[j]) == os[i]@); } }
//@ bodystart
let ghost mut s16: Seq<u16> = Seq::empty();
//@ before 1
proof { s16 = offsets_sorted@; }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == s16.len(), s16 == offsets_sorted@, vo_1@.len() == vi_1, forall|i: int| 0 <= i < vi_1 ==> (#[trigger] vo_1@[i])@ == s16[i],
decreases vn_1 - vi_1
//@ let range_check_permutation_col
let ghost rc = range_check_permutation_col@;
//@ let aux_table
let ghost g = |r: int, c: int| aux_cell(os, sa, sv, pc, rc, r, c);
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == nr, os == offsets_sorted@, sa == addresses@, sv == values@, pc == permutation_col@, rc == range_check_permutation_col@,
    os.len() == 3 * nr, rc.len() == 3 * nr, sa.len() == 4 * nr, sv.len() == 4 * nr, pc.len() == 4 * nr, nr <= 0x0100_0000_0000_0000,
    filled(aux_table@, 18, vi_2 as int, 0, g), g == (|r: int, c: int| aux_cell(os, sa, sv, pc, rc, r, c)),
decreases vn_2 - vi_2
//@ loopstart 2
let ghost t1 = aux_table@;
//@ loopend 2
proof {
    let r = vj_2 as int; let row = aux_row(os, sa, sv, pc, rc, r);
    assert(aux_table@ =~= t1 + row);
    assert forall|k: int| 0 <= k < row.len() implies #[trigger] row[k] == g(r, 0 + k) by { }
    lemma_append(t1, 18, r, 0, g, row); lemma_next_row(t1 + row, 18, r, g);
}
//@ tail
proof {
    let t = vx_tail; lemma_rows(nr, 18); assert(t.table@.len() == nr * 18); assert(t.table.len() as int == t.table@.len());
    assert forall|r: int, c: int| 0 <= r < nr && 0 <= c < 18 implies #[trigger] t.cell(r, c) == aux_cell(os, sa, sv, pc, rc, r, c) by { assert(gcell(t.table@, 18, r, c) == g(r, c)); }
    lemma_flat_cols(t, os, 0, 3); lemma_flat_cols(t, sa, 3, 4); lemma_flat_cols(t, sv, 7, 4); lemma_flat_cols(t, pc, 11, 4); lemma_flat_cols(t, rc, 15, 3);
    assert(with_public(flat(m, access_cols()), flat(m, value_cols()), &self.pub_inputs, a2, v2));
    assert(offs16(of).to_multiset() == s16.to_multiset()); assert(s16 =~= vals16(os));
}
