//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include map.rs
//@ include entries.rs
//@ include mapprod.rs
//@ consts cairo/air.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/air.rs MemorySegment
//@ raw
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
//@ item cairo/air.rs PublicInputs
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item cairo/air.rs CairoAIR
//@ item cairo/air.rs CairoRAPChallenges noclone
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ use c04 CairoAIR::get_builtin_offset
//@ use c09 BoundaryConstraint::new
//@ use c09 BoundaryConstraints::from_constraints
//@ include pins.rs
//@ raw
pub proof fn lemma_final(pf: int, cp: int, prod: int, m: int, t: int) requires pf == t * cp, congr(prod * cp, 1), congr(prod, m) ensures congr(pf * m, t) {
    lemma_congr_mul(prod, m, cp, cp); lemma_congr_mul(t, t, m * cp, 1);
    assert((t * cp) * m == t * (m * cp)) by (nonlinear_arith); assert(t * 1 == t);
}
//@ fn cairo/air.rs AIR for CairoAIR::boundary_constraints {"maps": ["public_memory"]}
requires self.pub_inputs.num_steps >= 1, self.trace_length >= 1, self.pub_inputs.range_check_min.is_some(), self.pub_inputs.range_check_max.is_some(),
    !congr(mem_product(self.pub_inputs.public_memory@, rap_challenges.z_memory@, rap_challenges.alpha_memory@), 0),
ensures ({ let cs = ret.constraints@; let p = self.pub_inputs;
    &&& pinned(cs, 19, 0, p.pc_init@) && pinned(cs, 17, 0, p.ap_init@) && pinned(cs, 18, 0, p.fp_init@)
    &&& pinned(cs, 19, last_step(self), p.pc_final@) && pinned(cs, 17, last_step(self), p.ap_final@)
    &&& exists|i: int| 0 <= i < cs.len() && is_memory_pin(self, *rap_challenges, #[trigger] cs[i])
    &&& pinned(cs, 60 - off(self), last_row(self), 1)
    &&& pinned(cs, 43 - off(self), 0, p.range_check_min->Some_0 as int)
    &&& pinned(cs, 45 - off(self), last_row(self), p.range_check_max->Some_0 as int)
    &&& forall|i: int| 0 <= i < cs.len() ==> is_plain_pin(self, #[trigger] cs[i]) || is_memory_pin(self, *rap_challenges, cs[i]) })
//@ loop 0
invariant 0 <= vi_0 <= vn_0, vn_0 == vsrc_0_0@.len(), congr(va_0@, cells_product(vsrc_0_0@, rap_challenges.z_memory@, rap_challenges.alpha_memory@, vi_0 as int)),
    entries_of(vsrc_0_0@, self.pub_inputs.public_memory@), self.pub_inputs.public_memory@.dom().finite(),
decreases vn_0 - vi_0
//@ loopstart 0
let ghost old_p = va_0@;
//@ loopend 0
proof {
    let (z, al) = (rap_challenges.z_memory@, rap_challenges.alpha_memory@); let f = cell_factor((*vsrc_0_0@[vj_0 as int].0)@, (*vsrc_0_0@[vj_0 as int].1)@, z, al);
    lemma_congr_mul(old_p, cells_product(vsrc_0_0@, z, al, vj_0 as int), f, f);
}
//@ bodystart
let ghost mut gp: int = 0;
//@ after 0
proof { gp = va_0@; assert(vi_0 == vsrc_0_0@.len()); lemma_listed_product(vsrc_0_0@, self.pub_inputs.public_memory@, rap_challenges.z_memory@, rap_challenges.alpha_memory@); }
//@ let permutation_final
proof {
    let (z, al) = (rap_challenges.z_memory@, rap_challenges.alpha_memory@); let m = mem_product(self.pub_inputs.public_memory@, z, al); let t = ipow(z, self.pub_inputs.public_memory@.dom().len());
    lemma_final(permutation_final@, cumulative_product@, gp, m, t);
}
//@ let constraints
proof {
    let cs = constraints@; let p = self.pub_inputs;
    assert(pins(cs[0], 19, 0, p.pc_init@)); assert(pins(cs[1], 17, 0, p.ap_init@)); assert(pins(cs[2], 18, 0, p.fp_init@));
    assert(pins(cs[3], 19, last_step(self), p.pc_final@)); assert(pins(cs[4], 17, last_step(self), p.ap_final@));
    assert(is_memory_pin(self, *rap_challenges, cs[5])); assert(pins(cs[6], 60 - off(self), last_row(self), 1));
    assert(pins(cs[7], 43 - off(self), 0, p.range_check_min->Some_0 as int)); assert(pins(cs[8], 45 - off(self), last_row(self), p.range_check_max->Some_0 as int));
    assert(cs.len() == 9);
    assert forall|i: int| 0 <= i < cs.len() implies is_plain_pin(self, #[trigger] cs[i]) || is_memory_pin(self, *rap_challenges, cs[i]) by {
        if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else if i == 7 {} else {}
    }
}
