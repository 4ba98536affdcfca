//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include trans.rs
//@ include map.rs
//@ include ser.rs
//@ include entries.rs
//@ config
{"rename": {"Proof": "Proof!", "HashMap": "VxMap"}, "methods": {"to_be_bytes": "vx_to_be", "extend": "fn vx_extend&mut ", "try_into": "fn vx_try_into"}, "paths": {"usize::from_be_bytes": "vx_usize_from_be", "u64::from_be_bytes": "vx_u64_from_be", "u16::from_be_bytes": "vx_u16_from_be", "FE::from_bytes_be": "vx_fe_from_be", "Vec::with_capacity": "vx_with_capacity"}}
//@ item cairo/air.rs MemorySegment
//@ raw
use core::ops::Range;
pub type MemorySegmentMap = VxMap<MemorySegment, Range<u64>>;
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
//@ item cairo/air.rs PublicInputs
//@ raw
/// The values of the format; the two maps as lists of entries.
pub ghost struct VPub { pub a0: int, pub a1: int, pub a2: int, pub a3: int, pub a4: int, pub lo: Option<int>, pub hi: Option<int>, pub segs: Seq<(int, (int, int))>, pub mem: Seq<(int, int)>, pub steps: int }
pub open spec fn o_int(x: Option<u16>) -> Option<int> { match x { None => None, Some(v) => Some(v as int) } }
pub open spec fn rng(r: Range<u64>) -> (int, int) { (r.start as int, r.end as int) }
pub open spec fn seg_map(m: Map<int, Range<u64>>) -> Map<int, (int, int)> { Map::new(m.dom(), |k: int| rng(m[k])) }
pub open spec fn fe_map(m: Map<int, FE>) -> Map<int, int> { Map::new(m.dom(), |k: int| rep(m[k])) }
/// Public inputs p hold the plain fields of v.
pub open spec fn plain(p: PublicInputs, v: VPub) -> bool {
    rep(p.pc_init) == v.a0 && rep(p.ap_init) == v.a1 && rep(p.fp_init) == v.a2 && rep(p.pc_final) == v.a3 && rep(p.ap_final) == v.a4
        && o_int(p.range_check_min) == v.lo && o_int(p.range_check_max) == v.hi && p.num_steps == v.steps
}
pub open spec fn r_opt(s: Seq<u8>) -> R<Option<int>> {
    if s.len() == 0 { None } else if s[0] == 0 { Some((None, s.subrange(1, s.len() as int))) }
    else if s[0] == 1 { match r_int(s.subrange(1, s.len() as int), 2) { None => None, Some((v, r)) => Some((Some(v), r)) } } else { None }
}
pub open spec fn r_seg(s: Seq<u8>) -> R<(int, (int, int))> {
    if s.len() == 0 || s[0] > 1 { None } else { match r_int(s.subrange(1, s.len() as int), 8) { None => None, Some((a, r)) => match r_int(r, 8) { None => None, Some((b, q)) => Some(((s[0] as int, (a, b)), q)) } } }
}
pub open spec fn r_cell(s: Seq<u8>, w: int) -> R<(int, int)> { match r_fe(s, w) { None => None, Some((a, r)) => match r_fe(r, w) { None => None, Some((b, q)) => Some(((a, b), q)) } } }
pub open spec fn f_seg() -> spec_fn(Seq<u8>) -> R<(int, (int, int))> { |s: Seq<u8>| r_seg(s) }
pub open spec fn f_cell(w: int) -> spec_fn(Seq<u8>) -> R<(int, int)> { |s: Seq<u8>| r_cell(s, w) }
#[verifier::opaque]
pub open spec fn c10(w: int, h: (int, int, int, int, int), o: (Option<int>, Option<int>), segs: Seq<(int, (int, int))>, s10: Seq<u8>) -> Option<VPub> {
    match r_int(s10, 8) { None => None, Some((n2, s11)) =>
    match r_list(s11, n2 as nat, f_cell(w)) { None => None, Some((mem, s12)) =>
    match r_int(s12, 8) { None => None, Some((steps, s13)) =>
    Some(VPub { a0: h.0, a1: h.1, a2: h.2, a3: h.3, a4: h.4, lo: o.0, hi: o.1, segs, mem, steps })
    }}}
}
#[verifier::opaque]
pub open spec fn c8(w: int, h: (int, int, int, int, int), o: (Option<int>, Option<int>), s8: Seq<u8>) -> Option<VPub> {
    match r_int(s8, 8) { None => None, Some((n1, s9)) =>
    match r_list(s9, n1 as nat, f_seg()) { None => None, Some((segs, s10)) =>
    c10(w, h, o, segs, s10)
    }}
}
#[verifier::opaque]
pub open spec fn c7(w: int, h: (int, int, int, int, int), lo: Option<int>, s7: Seq<u8>) -> Option<VPub> {
    match r_opt(s7) { None => None, Some((hi, s8)) =>
    c8(w, h, (lo, hi), s8)
    }
}
#[verifier::opaque]
pub open spec fn c6(w: int, h: (int, int, int, int, int), s6: Seq<u8>) -> Option<VPub> {
    match r_opt(s6) { None => None, Some((lo, s7)) =>
    c7(w, h, lo, s7)
    }
}
pub open spec fn r_pub(s: Seq<u8>) -> Option<VPub> {
    match r_int(s, 8) { None => None, Some((w, s1)) =>
    match r_fe(s1, w) { None => None, Some((a0, s2)) =>
    match r_fe(s2, w) { None => None, Some((a1, s3)) =>
    match r_fe(s3, w) { None => None, Some((a2, s4)) =>
    match r_fe(s4, w) { None => None, Some((a3, s5)) =>
    match r_fe(s5, w) { None => None, Some((a4, s6)) =>
    c6(w, (a0, a1, a2, a3, a4), s6)
    }}}}}}
}
pub open spec fn e_opt(x: Option<int>) -> Seq<u8> { match x { None => be_bytes(0, 1), Some(v) => be_bytes(1, 1) + be_bytes(v, 2) } }
pub open spec fn w_seg() -> spec_fn((int, (int, int))) -> Seq<u8> { |x: (int, (int, int))| be_bytes(x.0, 1) + be8(x.1.0) + be8(x.1.1) }
pub open spec fn w_cell() -> spec_fn((int, int)) -> Seq<u8> { |x: (int, int)| e_felt(x.0) + e_felt(x.1) }
pub open spec fn e_pub(v: VPub) -> Seq<u8> {
    be8(32) + e_felt(v.a0) + e_felt(v.a1) + e_felt(v.a2) + e_felt(v.a3) + e_felt(v.a4) + e_opt(v.lo) + e_opt(v.hi)
        + be8(v.segs.len() as int) + e_list(v.segs, w_seg()) + be8(v.mem.len() as int) + e_list(v.mem, w_cell()) + be8(v.steps)
}
pub open spec fn opt_ok(x: Option<int>) -> bool { match x { None => true, Some(v) => 0 <= v < 0x1_0000 } }
pub open spec fn segs_ok(v: Seq<(int, (int, int))>) -> bool { cnt(v.len() as int) && forall|i: int| 0 <= i < v.len() ==> 0 <= (#[trigger] v[i]).0 <= 1 && cnt(v[i].1.0) && cnt(v[i].1.1) }
pub open spec fn mem_ok(v: Seq<(int, int)>) -> bool { cnt(v.len() as int) && forall|i: int| 0 <= i < v.len() ==> fe_ok((#[trigger] v[i]).0) && fe_ok(v[i].1) }
pub open spec fn pub_ok(v: VPub) -> bool { fe_ok(v.a0) && fe_ok(v.a1) && fe_ok(v.a2) && fe_ok(v.a3) && fe_ok(v.a4) && opt_ok(v.lo) && opt_ok(v.hi) && segs_ok(v.segs) && mem_ok(v.mem) && cnt(v.steps) }
pub open spec fn v_segs(e: Seq<(&MemorySegment, &Range<u64>)>) -> Seq<(int, (int, int))> { Seq::new(e.len(), |i: int| ((*e[i].0).k(), rng(*e[i].1))) }
pub open spec fn v_mem(e: Seq<(&FE, &FE)>) -> Seq<(int, int)> { Seq::new(e.len(), |i: int| (rep(*e[i].0), rep(*e[i].1))) }
pub open spec fn vpub(p: PublicInputs, segs: Seq<(int, (int, int))>, mem: Seq<(int, int)>) -> VPub {
    VPub { a0: rep(p.pc_init), a1: rep(p.ap_init), a2: rep(p.fp_init), a3: rep(p.pc_final), a4: rep(p.ap_final), lo: o_int(p.range_check_min), hi: o_int(p.range_check_max), segs, mem, steps: p.num_steps as int }
}
/// bs is what these public inputs are written as, their maps listed in some order.
pub open spec fn written(p: PublicInputs, bs: Seq<u8>) -> bool {
    exists|segs: Seq<(int, (int, int))>, mem: Seq<(int, int)>| lists(segs, seg_map(p.memory_segments@)) && lists(mem, fe_map(p.public_memory@)) && pub_ok(vpub(p, segs, mem)) && bs == #[trigger] e_pub(vpub(p, segs, mem))
}
pub open spec fn read_as(p: PublicInputs, v: VPub) -> bool { plain(p, v) && seg_map(p.memory_segments@) == ins(v.segs) && fe_map(p.public_memory@) == ins(v.mem) }
pub broadcast proof fn lemma_subsub(s: Seq<u8>, b: int, c: int, d: int) requires 0 <= c <= d <= b <= s.len() ensures (#[trigger] s.subrange(0, b).subrange(c, d)) == s.subrange(c, d) { assert(s.subrange(0, b).subrange(c, d) =~= s.subrange(c, d)); }
pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn lemma_rep_ok(x: FE) ensures fe_ok(rep(x)) { broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_mod_bound(x@, P()); }
pub proof fn lemma_ins0<T>() ensures ins(Seq::<(int, T)>::empty()) == Map::<int, T>::empty() {}
pub proof fn lemma_ins_push<T>(es: Seq<(int, T)>, k: int, v: T) ensures ins(es.push((k, v))) == ins(es).insert(k, v) { assert(es.push((k, v)).drop_last() =~= es); }
pub proof fn lemma_seg_ins(m: Map<int, Range<u64>>, k: int, r: Range<u64>) ensures seg_map(m.insert(k, r)) == seg_map(m).insert(k, rng(r)) { assert(seg_map(m.insert(k, r)) =~= seg_map(m).insert(k, rng(r))); }
pub proof fn lemma_fe_ins(m: Map<int, FE>, k: int, v: FE) ensures fe_map(m.insert(k, v)) == fe_map(m).insert(k, rep(v)) { assert(fe_map(m.insert(k, v)) =~= fe_map(m).insert(k, rep(v))); }
pub proof fn lemma_seg_lists(e: Seq<(&MemorySegment, &Range<u64>)>, m: Map<int, Range<u64>>) requires entries_of(e, m), cnt(e.len() as int) ensures lists(v_segs(e), seg_map(m)), segs_ok(v_segs(e))
{
    assert forall|k: int| seg_map(m).dom().contains(k) implies exists|i: int| 0 <= i < v_segs(e).len() && (#[trigger] v_segs(e)[i]).0 == k by {
        let i = choose|i: int| 0 <= i < e.len() && (*(#[trigger] e[i]).0).k() == k; assert(v_segs(e)[i].0 == k);
    }
    assert forall|i: int| 0 <= i < v_segs(e).len() implies seg_map(m).dom().contains((#[trigger] v_segs(e)[i]).0) && seg_map(m)[v_segs(e)[i].0] == v_segs(e)[i].1 by { assert(m.dom().contains((*e[i].0).k())); }
    assert forall|i: int, j: int| 0 <= i < j < v_segs(e).len() implies v_segs(e)[i].0 != v_segs(e)[j].0 by { assert((*e[i].0).k() != (*e[j].0).k()); }
}
pub proof fn lemma_mem_lists(e: Seq<(&FE, &FE)>, m: Map<int, FE>) requires entries_of(e, m), cnt(e.len() as int) ensures lists(v_mem(e), fe_map(m)), mem_ok(v_mem(e))
{
    assert forall|k: int| fe_map(m).dom().contains(k) implies exists|i: int| 0 <= i < v_mem(e).len() && (#[trigger] v_mem(e)[i]).0 == k by {
        let i = choose|i: int| 0 <= i < e.len() && (*(#[trigger] e[i]).0).k() == k; assert(v_mem(e)[i].0 == k);
    }
    assert forall|i: int| 0 <= i < v_mem(e).len() implies fe_map(m).dom().contains((#[trigger] v_mem(e)[i]).0) && fe_map(m)[v_mem(e)[i].0] == v_mem(e)[i].1 by { assert(m.dom().contains((*e[i].0).k())); }
    assert forall|i: int, j: int| 0 <= i < j < v_mem(e).len() implies v_mem(e)[i].0 != v_mem(e)[j].0 by { assert((*e[i].0).k() != (*e[j].0).k()); }
    assert forall|i: int| 0 <= i < v_mem(e).len() implies fe_ok((#[trigger] v_mem(e)[i]).0) && fe_ok(v_mem(e)[i].1) by { lemma_rep_ok(*e[i].0); lemma_rep_ok(*e[i].1); }
}
pub proof fn lemma_byte_back(x: int, rest: Seq<u8>) requires 0 <= x < 256 ensures be_bytes(x, 1).len() == 1, (be_bytes(x, 1) + rest)[0] == x, (be_bytes(x, 1) + rest).subrange(1, (be_bytes(x, 1) + rest).len() as int) == rest, be_bytes(x, 1) + rest == seq![x as u8] + rest
{
    assert(ipow(256, 1) == 256) by (compute);
    axiom_be_bytes(x, 1); reveal_with_fuel(be, 2);
    let s = be_bytes(x, 1) + rest;
    assert(s.subrange(1, s.len() as int) =~= rest);
    assert(be_bytes(x, 1) =~= seq![x as u8]);
}
pub proof fn lemma_opt_back(x: Option<int>, rest: Seq<u8>) requires opt_ok(x) ensures r_opt(e_opt(x) + rest) == Some((x, rest))
{
    match x {
        None => { lemma_byte_back(0, rest); }
        Some(v) => {
            let t = be_bytes(v, 2) + rest;
            lemma_assoc(be_bytes(1, 1), be_bytes(v, 2), rest);
            lemma_byte_back(1, t);
            assert(ipow(256, 2) == 0x1_0000) by (compute);
            lemma_int_back(v, 2, rest);
        }
    }
}
pub proof fn lemma_segs_back(p: Seq<(int, (int, int))>, rest: Seq<u8>) requires segs_ok(p) ensures r_list(e_list(p, w_seg()) + rest, p.len(), f_seg()) == Some((p, rest))
{
    assert forall|i: int| 0 <= i < p.len() implies reads(#[trigger] p[i], w_seg(), f_seg()) by {
        let x = p[i];
        assert(0 <= x.0 <= 1 && cnt(x.1.0) && cnt(x.1.1));
        assert forall|r: Seq<u8>| #[trigger] f_seg()(w_seg()(x) + r) == Some((x, r)) by {
            let t2 = be8(x.1.1) + r; let t1 = be8(x.1.0) + t2;
            lemma_assoc(be_bytes(x.0, 1) + be8(x.1.0), be8(x.1.1), r); lemma_assoc(be_bytes(x.0, 1), be8(x.1.0), t2);
            lemma_byte_back(x.0, t1); lemma_int_back8(x.1.0, t2); lemma_int_back8(x.1.1, r);
        }
    }
    lemma_list_back(p, w_seg(), f_seg(), rest);
}
pub proof fn lemma_mem_back(p: Seq<(int, int)>, rest: Seq<u8>) requires mem_ok(p) ensures r_list(e_list(p, w_cell()) + rest, p.len(), f_cell(32)) == Some((p, rest))
{
    assert forall|i: int| 0 <= i < p.len() implies reads(#[trigger] p[i], w_cell(), f_cell(32)) by {
        let x = p[i];
        assert(fe_ok(x.0) && fe_ok(x.1));
        assert forall|r: Seq<u8>| #[trigger] f_cell(32)(w_cell()(x) + r) == Some((x, r)) by {
            lemma_assoc(e_felt(x.0), e_felt(x.1), r); lemma_fe_back(x.0, e_felt(x.1) + r); lemma_fe_back(x.1, r);
        }
    }
    lemma_list_back(p, w_cell(), f_cell(32), rest);
}
pub proof fn lemma_pub_back(v: VPub) requires pub_ok(v) ensures r_pub(e_pub(v)) == Some(v)
{
    let z = Seq::<u8>::empty();
    let t12 = be8(v.steps) + z; let t11 = e_list(v.mem, w_cell()) + t12; let t10 = be8(v.mem.len() as int) + t11; let t9 = e_list(v.segs, w_seg()) + t10; let t8 = be8(v.segs.len() as int) + t9;
    let t7 = e_opt(v.hi) + t8; let t6 = e_opt(v.lo) + t7; let t5 = e_felt(v.a4) + t6; let t4 = e_felt(v.a3) + t5; let t3 = e_felt(v.a2) + t4; let t2 = e_felt(v.a1) + t3; let t1 = e_felt(v.a0) + t2; let t0 = be8(32) + t1;
    assert(e_pub(v) == t0) by { broadcast use lemma_assoc; assert(be8(v.steps) + z =~= be8(v.steps)); }
    let h = (v.a0, v.a1, v.a2, v.a3, v.a4); let o = (v.lo, v.hi);
    assert(r_pub(t0) == c6(32, h, t6)) by { lemma_int_back8(32, t1); lemma_fe_back(v.a0, t2); lemma_fe_back(v.a1, t3); lemma_fe_back(v.a2, t4); lemma_fe_back(v.a3, t5); lemma_fe_back(v.a4, t6); }
    assert(c6(32, h, t6) == c7(32, h, v.lo, t7)) by { reveal(c6); lemma_opt_back(v.lo, t7); }
    assert(c7(32, h, v.lo, t7) == c8(32, h, o, t8)) by { reveal(c7); lemma_opt_back(v.hi, t8); }
    assert(c8(32, h, o, t8) == c10(32, h, o, v.segs, t10)) by { reveal(c8); lemma_int_back8(v.segs.len() as int, t9); lemma_segs_back(v.segs, t10); }
    assert(c10(32, h, o, v.segs, t10) == Some(v)) by { reveal(c10); lemma_int_back8(v.mem.len() as int, t11); lemma_mem_back(v.mem, t12); lemma_int_back8(v.steps, z); }
}
/// What serialize wrote for p, deserialize reads as equal public inputs.
pub proof fn theorem_public_inputs_round_trip(p: PublicInputs, bs: Seq<u8>, q: PublicInputs)
    requires written(p, bs), r_pub(bs).is_some() ==> read_as(q, r_pub(bs)->Some_0)
    ensures r_pub(bs).is_some(), plain(q, vpub(p, Seq::empty(), Seq::empty())), seg_map(q.memory_segments@) == seg_map(p.memory_segments@), fe_map(q.public_memory@) == fe_map(p.public_memory@)
{
    let (segs, mem) = choose|segs: Seq<(int, (int, int))>, mem: Seq<(int, int)>| lists(segs, seg_map(p.memory_segments@)) && lists(mem, fe_map(p.public_memory@)) && pub_ok(vpub(p, segs, mem)) && bs == #[trigger] e_pub(vpub(p, segs, mem));
    lemma_pub_back(vpub(p, segs, mem));
    lemma_lists_ins(segs, seg_map(p.memory_segments@));
    lemma_lists_ins(mem, fe_map(p.public_memory@));
}
//@ fn cairo/air.rs PublicInputs::serialize {"maps": ["memory_segments", "public_memory"], "types": {"memory_segment_bytes": "Vec<u8>", "public_memory_bytes": "Vec<u8>"}}
ensures written(*self, ret@),
//@ bodystart
hide(e_list); hide(be); hide(entries_of); hide(lists); hide(segs_ok); hide(mem_ok);
let ghost mut sg0: Seq<(int, (int, int))> = Seq::empty(); let ghost mut sg1: Seq<(int, int)> = Seq::empty();
//@ before 0
let ghost g0 = memory_segment_bytes@; let ghost e0 = v_segs(vsrc_0_0@);
proof { lemma_e_ends(v_segs(vsrc_0_0@), w_seg(), memory_segment_bytes@); lemma_seg_lists(vsrc_0_0@, self.memory_segments@); assert(e_list(v_segs(vsrc_0_0@).take(0), w_seg()) =~= Seq::<u8>::empty());
    let a5 = be8(32) + e_felt(rep(self.pc_init)) + e_felt(rep(self.ap_init)) + e_felt(rep(self.fp_init)) + e_felt(rep(self.pc_final)) + e_felt(rep(self.ap_final));
    let a6 = a5 + e_opt(o_int(self.range_check_min));
    if let Some(x) = self.range_check_min { lemma_assoc(a5, be_bytes(1, 1), be_bytes(x as int, 2)); }
    if let Some(x) = self.range_check_max { lemma_assoc(a6, be_bytes(1, 1), be_bytes(x as int, 2)); }
    assert(bytes@ == a6 + e_opt(o_int(self.range_check_max))); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == vsrc_0_0@.len(), memory_segment_bytes@ == e_list(v_segs(vsrc_0_0@).take(vi_0 as int), w_seg()),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost h0 = memory_segment_bytes@;
//@ loopend 0
proof { lemma_e_next(v_segs(vsrc_0_0@), vj_0 as int, w_seg()); assert(memory_segment_bytes@ =~= h0 + w_seg()(v_segs(vsrc_0_0@)[vj_0 as int])); }
//@ after 0
proof { sg0 = v_segs(vsrc_0_0@); }
//@ before 1
let ghost g1 = public_memory_bytes@; let ghost e1 = v_mem(vsrc_1_0@);
proof { lemma_e_ends(v_mem(vsrc_1_0@), w_cell(), public_memory_bytes@); lemma_mem_lists(vsrc_1_0@, self.public_memory@); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == vsrc_1_0@.len(), public_memory_bytes@ == e_list(v_mem(vsrc_1_0@).take(vi_1 as int), w_cell()),
decreases vn_1 - vi_1,
//@ loopstart 1
let ghost h1 = public_memory_bytes@;
//@ loopend 1
proof { lemma_e_next(v_mem(vsrc_1_0@), vj_1 as int, w_cell()); assert(public_memory_bytes@ =~= h1 + w_cell()(v_mem(vsrc_1_0@)[vj_1 as int])); }
//@ after 1
proof { sg1 = v_mem(vsrc_1_0@); }
//@ tail
proof {
    lemma_rep_ok(self.pc_init); lemma_rep_ok(self.ap_init); lemma_rep_ok(self.fp_init); lemma_rep_ok(self.pc_final); lemma_rep_ok(self.ap_final);
    assert(bytes@ == e_pub(vpub(*self, sg0, sg1)));
}
//@ fn cairo/air.rs PublicInputs::deserialize
ensures match r_pub(bytes@) { None => ret.is_err(), Some(v) => ret.is_ok() && read_as(ret->Ok_0, v) },
//@ bodystart
hide(r_list); hide(ins); hide(be);
broadcast use lemma_subsub;
let ghost s0 = bytes@;
let ghost mut sg0: Seq<(int, (int, int))> = Seq::empty(); let ghost mut sg1: Seq<(int, int)> = Seq::empty();
//@ before 0
proof { lemma_pre0(r_list(bytes@, vn_0 as nat, f_seg())); lemma_ins0::<(int, int)>(); assert(seg_map(memory_segments@) =~= ins(sg0)); }
let ghost g0 = bytes@;
//@ loop 0
invariant vi_0 <= vn_0, r_list(g0, vn_0 as nat, f_seg()) == pre(sg0, r_list(bytes@, (vn_0 - vi_0) as nat, f_seg())), seg_map(memory_segments@) == ins(sg0), sg0.len() == vi_0, sg0.len() + bytes@.len() <= g0.len(),
decreases vn_0 - vi_0,
//@ loopstart 0
let ghost m0 = memory_segments@;
proof { lemma_step(sg0, bytes@, (vn_0 - vi_0) as nat, f_seg()); }
//@ loopend 0
proof { lemma_seg_ins(m0, segment_type.k(), Range { start: start, end: end }); lemma_ins_push(sg0, segment_type.k(), (start as int, end as int)); sg0 = sg0.push((segment_type.k(), (start as int, end as int))); }
//@ after 0
proof { lemma_done(sg0, bytes@, f_seg()); }
//@ before 1
proof { lemma_pre0(r_list(bytes@, vn_1 as nat, f_cell(felt_len as int))); lemma_ins0::<int>(); assert(fe_map(public_memory@) =~= ins(sg1)); }
let ghost g1 = bytes@;
//@ loop 1
invariant vi_1 <= vn_1, r_list(g1, vn_1 as nat, f_cell(felt_len as int)) == pre(sg1, r_list(bytes@, (vn_1 - vi_1) as nat, f_cell(felt_len as int))), fe_map(public_memory@) == ins(sg1), sg1.len() == vi_1, sg1.len() + bytes@.len() <= g1.len(),
decreases vn_1 - vi_1,
//@ loopstart 1
let ghost m1 = public_memory@;
proof { lemma_step(sg1, bytes@, (vn_1 - vi_1) as nat, f_cell(felt_len as int)); }
//@ loopend 1
proof { lemma_fe_ins(m1, rep(address), value); lemma_ins_push(sg1, rep(address), rep(value)); sg1 = sg1.push((rep(address), rep(value))); }
//@ after 1
proof { lemma_done(sg1, bytes@, f_cell(felt_len as int)); }
//@ let ap_final
proof { assert(r_pub(s0) == c6(felt_len as int, (rep(pc_init), rep(ap_init), rep(fp_init), rep(pc_final), rep(ap_final)), bytes@.subrange(felt_len as int, bytes@.len() as int))); reveal(c6); }
//@ let range_check_min#2
proof { assert(r_pub(s0) == c7(felt_len as int, (rep(pc_init), rep(ap_init), rep(fp_init), rep(pc_final), rep(ap_final)), o_int(range_check_min), bytes@)); reveal(c7); }
//@ let range_check_max#2
proof { assert(r_pub(s0) == c8(felt_len as int, (rep(pc_init), rep(ap_init), rep(fp_init), rep(pc_final), rep(ap_final)), (o_int(range_check_min), o_int(range_check_max)), bytes@)); reveal(c8); }
//@ let public_memory
proof { assert(r_pub(s0) == c10(felt_len as int, (rep(pc_init), rep(ap_init), rep(fp_init), rep(pc_final), rep(ap_final)), (o_int(range_check_min), o_int(range_check_max)), sg0, bytes@)); reveal(c10); }

