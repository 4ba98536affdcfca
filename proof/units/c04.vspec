//@ include fe.rs
//@ include map.rs
//@ consts cairo/air.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/air.rs MemorySegment
//@ raw
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
//@ item cairo/air.rs PublicInputs
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item cairo/air.rs CairoAIR
//@ item starks/frame.rs Frame noclone
//@ item cairo/air.rs CairoRAPChallenges noclone
//@ include cairopoly.rs
//@ fn starks/frame.rs Frame::get_row
requires row_idx < 2, self.wf(2, 0),
ensures ret@.len() == self.row_width, forall|c: int| 0 <= c < self.row_width ==> (#[trigger] ret@[c])@ == self.at(row_idx as int, c),
//@ bodystart
assert(row_idx * self.row_width <= self.row_width) by (nonlinear_arith) requires row_idx < 2;
assert(self.data.len() == 2 * self.row_width);
assert(row_idx * self.row_width + self.row_width <= 2 * self.row_width) by (nonlinear_arith) requires row_idx < 2;
//@ fn cairo/air.rs frame_inst_size
requires frame_row@.len() > 2,
ensures ret@ == frame_row@[2]@ + 1,
//@ raw
pub open spec fn unchanged_outside(a: Seq<FE>, b: Seq<FE>, lo: int, hi: int) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() && !(lo <= i < hi) ==> a[i] == b[i]
}
//@ fn cairo/air.rs compute_instr_constraints
requires frame.wf(2, 34), old(constraints)@.len() >= 31,
ensures
    unchanged_outside(final(constraints)@, old(constraints)@, 0, 17),
    forall|i: int| 0 <= i < 15 ==> (#[trigger] final(constraints)@[i])@ == cur(frame, i) * (cur(frame, i) - 1),
    final(constraints)@[15]@ == cur(frame, 15),
    final(constraints)@[16]@ == cur(frame, 27) + 0x1_0000 * cur(frame, 28) + 0x1_0000_0000 * cur(frame, 29)
        + 0x1_0000_0000_0000 * flags_from(frame, 0) - cur(frame, 23),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == 16, vsrc_0_0@ == curr@.subrange(0, 16), unchanged_outside(constraints@, old(constraints)@, 0, 17),
    forall|i: int| 0 <= i < vi_0 && i < 15 ==> (#[trigger] constraints@[i])@ == cur(frame, i) * (cur(frame, i) - 1),
    vi_0 == 16 ==> constraints@[15]@ == cur(frame, 15),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == 15, vr_1_1 == 15, vsrc_1_0@ == curr@.subrange(0, 15), va_1@ == flags_from(frame, 15 - vi_1), two@ == 2,
decreases vn_1 - vi_1
//@ let b48
proof { reveal_with_fuel(ipow, 50); assert(ipow(2, 16) == 0x1_0000) by (compute); assert(ipow(2, 32) == 0x1_0000_0000) by (compute); assert(ipow(2, 48) == 0x1_0000_0000_0000) by (compute); }

//@ fn cairo/air.rs compute_operand_constraints
requires frame.wf(2, 34), old(constraints)@.len() >= 31,
ensures
    unchanged_outside(final(constraints)@, old(constraints)@, 17, 20),
    // dst_addr = (dst_fp ? fp : ap) + off_dst - 2^15
    final(constraints)@[17]@ == pick(cur(frame, 0), cur(frame, 18), cur(frame, 17)) + (cur(frame, 27) - 0x8000) - cur(frame, 20),
    final(constraints)@[18]@ == pick(cur(frame, 1), cur(frame, 18), cur(frame, 17)) + (cur(frame, 28) - 0x8000) - cur(frame, 21),
    final(constraints)@[19]@ == cur(frame, 2) * cur(frame, 19) + cur(frame, 4) * cur(frame, 17) + cur(frame, 3) * cur(frame, 18)
        + (1 - cur(frame, 2) - cur(frame, 4) - cur(frame, 3)) * cur(frame, 25) + (cur(frame, 29) - 0x8000) - cur(frame, 22),
//@ let b15
proof { reveal_with_fuel(ipow, 50); assert(ipow(2, 15) == 0x8000) by (compute); }
//@ fn cairo/air.rs compute_register_constraints
requires frame.wf(2, 34), old(constraints)@.len() >= 31,
ensures
    unchanged_outside(final(constraints)@, old(constraints)@, 20, 26),
    final(constraints)@[20]@ == cur(frame, 17) + cur(frame, 10) * cur(frame, 16) + cur(frame, 11) + cur(frame, 12) * 2 - nxt(frame, 17),
    final(constraints)@[21]@ == cur(frame, 13) * cur(frame, 24) + cur(frame, 12) * (cur(frame, 17) + 2)
        + (1 - cur(frame, 13) - cur(frame, 12)) * cur(frame, 18) - nxt(frame, 18),
    final(constraints)@[22]@ == (cur(frame, 31) - cur(frame, 9)) * (nxt(frame, 19) - (cur(frame, 19) + isize_(frame))),
    final(constraints)@[23]@ == cur(frame, 30) * (nxt(frame, 19) - (cur(frame, 19) + cur(frame, 26)))
        + (1 - cur(frame, 9)) * nxt(frame, 19)
        - ((1 - cur(frame, 7) - cur(frame, 8) - cur(frame, 9)) * (cur(frame, 19) + isize_(frame))
            + cur(frame, 7) * cur(frame, 16) + cur(frame, 8) * (cur(frame, 19) + cur(frame, 16))),
    final(constraints)@[24]@ == cur(frame, 9) * cur(frame, 24) - cur(frame, 30),
    final(constraints)@[25]@ == cur(frame, 30) * cur(frame, 16) - cur(frame, 31),
//@ fn cairo/air.rs compute_opcode_constraints
requires frame.wf(2, 34), old(constraints)@.len() >= 31,
ensures
    unchanged_outside(final(constraints)@, old(constraints)@, 26, 31),
    final(constraints)@[26]@ == cur(frame, 32) - cur(frame, 25) * cur(frame, 26),
    final(constraints)@[27]@ == cur(frame, 5) * (cur(frame, 25) + cur(frame, 26)) + cur(frame, 6) * cur(frame, 32)
        + (1 - cur(frame, 5) - cur(frame, 6) - cur(frame, 9)) * cur(frame, 26) - (1 - cur(frame, 9)) * cur(frame, 16),
    final(constraints)@[28]@ == cur(frame, 12) * (cur(frame, 24) - cur(frame, 18)),
    final(constraints)@[29]@ == cur(frame, 12) * (cur(frame, 25) - (cur(frame, 19) + isize_(frame))),
    final(constraints)@[30]@ == cur(frame, 14) * (cur(frame, 24) - cur(frame, 16)),
//@ fn cairo/air.rs enforce_selector
requires frame.wf(2, 34), old(constraints)@.len() >= 31,
ensures
    unchanged_outside(final(constraints)@, old(constraints)@, 16, 31),
    forall|i: int| 16 <= i < 31 ==> (#[trigger] final(constraints)@[i])@ == old(constraints)@[i]@ * cur(frame, 33),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == 15, unchanged_outside(constraints@, old(constraints)@, 16, 31),
    forall|i: int| 16 <= i < 16 + vi_0 ==> (#[trigger] constraints@[i])@ == old(constraints)@[i]@ * cur(frame, 33),
    forall|i: int| 16 + vi_0 <= i < 31 ==> constraints@[i] == old(constraints)@[i],
decreases vn_0 - vi_0
//@ fn cairo/air.rs memory_is_increasing
requires frame.wf(2, 61 - builtin_offset), builtin_offset == 0 || builtin_offset == 9, old(constraints)@.len() >= 49,
ensures
    unchanged_outside(final(constraints)@, old(constraints)@, 31, 39),
    forall|i: int| 31 <= i < 34 ==> (#[trigger] final(constraints)@[i])@ ==  climbs(aux(frame, builtin_offset as int, 46 + (i - 31)), aux(frame, builtin_offset as int, 47 + (i - 31))),
    final(constraints)@[34]@ == climbs(aux(frame, builtin_offset as int, 49), auxn(frame, builtin_offset as int, 46)),
    forall|i: int| 35 <= i < 38 ==> (#[trigger] final(constraints)@[i])@ ==  consistent(aux(frame, builtin_offset as int, 46 + (i - 35)), aux(frame, builtin_offset as int, 50 + (i - 35)),
        aux(frame, builtin_offset as int, 47 + (i - 35)), aux(frame, builtin_offset as int, 51 + (i - 35))),
    final(constraints)@[38]@ == consistent(aux(frame, builtin_offset as int, 49), aux(frame, builtin_offset as int, 53), auxn(frame, builtin_offset as int, 46), auxn(frame, builtin_offset as int, 50)),
//@ fn cairo/air.rs permutation_argument
requires frame.wf(2, 61 - builtin_offset), builtin_offset == 0 || builtin_offset == 9, old(constraints)@.len() >= 49,
ensures
    unchanged_outside(final(constraints)@, old(constraints)@, 39, 43),
    forall|i: int| 39 <= i < 42 ==> (#[trigger] final(constraints)@[i])@ ==  mem_step(rap_challenges.z_memory@, rap_challenges.alpha_memory@,
        aux(frame, builtin_offset as int, 47 + (i - 39)), aux(frame, builtin_offset as int, 51 + (i - 39)), aux(frame, builtin_offset as int, 55 + (i - 39)),
        cur(frame, 20 + (i - 39)), cur(frame, 24 + (i - 39)), aux(frame, builtin_offset as int, 54 + (i - 39))),
    final(constraints)@[42]@ == mem_step(rap_challenges.z_memory@, rap_challenges.alpha_memory@,
        auxn(frame, builtin_offset as int, 46), auxn(frame, builtin_offset as int, 50), auxn(frame, builtin_offset as int, 54),
        nxt(frame, 19), nxt(frame, 23), aux(frame, builtin_offset as int, 57)),
//@ fn cairo/air.rs permutation_argument_range_check
requires frame.wf(2, 61 - builtin_offset), builtin_offset == 0 || builtin_offset == 9, old(constraints)@.len() >= 49,
ensures
    unchanged_outside(final(constraints)@, old(constraints)@, 43, 49),
    forall|i: int| 43 <= i < 45 ==> (#[trigger] final(constraints)@[i])@ ==  climbs(aux(frame, builtin_offset as int, 43 + (i - 43)), aux(frame, builtin_offset as int, 44 + (i - 43))),
    final(constraints)@[45]@ == climbs(aux(frame, builtin_offset as int, 45), auxn(frame, builtin_offset as int, 43)),
    forall|i: int| 46 <= i < 48 ==> (#[trigger] final(constraints)@[i])@ ==  rc_step(rap_challenges.z_range_check@,
        aux(frame, builtin_offset as int, 44 + (i - 46)), aux(frame, builtin_offset as int, 59 + (i - 46)), cur(frame, 28 + (i - 46)), aux(frame, builtin_offset as int, 58 + (i - 46))),
    final(constraints)@[48]@ == rc_step(rap_challenges.z_range_check@,
        auxn(frame, builtin_offset as int, 43), auxn(frame, builtin_offset as int, 58), nxt(frame, 27), aux(frame, builtin_offset as int, 60)),
//@ fn cairo/air.rs evaluate_range_check_builtin_constraint
requires curr@.len() >= 43,
ensures ret@ == limbs(curr@) - curr@[42]@,
//@ bodystart
proof {
reveal_strlit("10000"); assert("10000"@ =~= seq!['1','0','0','0','0']); assert(hexval(seq!['1','0','0','0','0']) == 0x10000) by (compute);
reveal_strlit("100000000"); assert("100000000"@ =~= seq!['1','0','0','0','0','0','0','0','0']); assert(hexval(seq!['1','0','0','0','0','0','0','0','0']) == 0x100000000) by (compute);
reveal_strlit("1000000000000"); assert("1000000000000"@ =~= seq!['1','0','0','0','0','0','0','0','0','0','0','0','0']); assert(hexval(seq!['1','0','0','0','0','0','0','0','0','0','0','0','0']) == 0x1000000000000) by (compute);
reveal_strlit("10000000000000000"); assert("10000000000000000"@ =~= seq!['1','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0']); assert(hexval(seq!['1','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0']) == 0x10000000000000000) by (compute);
reveal_strlit("100000000000000000000"); assert("100000000000000000000"@ =~= seq!['1','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0']); assert(hexval(seq!['1','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0']) == 0x100000000000000000000) by (compute);
reveal_strlit("1000000000000000000000000"); assert("1000000000000000000000000"@ =~= seq!['1','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0']); assert(hexval(seq!['1','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0']) == 0x1000000000000000000000000) by (compute);
reveal_strlit("10000000000000000000000000000"); assert("10000000000000000000000000000"@ =~= seq!['1','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0']); assert(hexval(seq!['1','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0','0']) == 0x10000000000000000000000000000) by (compute);
}
//@ fn cairo/air.rs range_check_builtin
requires frame.wf(2, 43), old(constraints)@.len() >= 50,
ensures unchanged_outside(final(constraints)@, old(constraints)@, 49, 50),
    final(constraints)@[49]@ == limbs(row0(frame)) - cur(frame, 42),
//@ let curr
proof { assert(forall|k: int| 34 <= k < 43 ==> (#[trigger] curr@[k])@ == row0(frame)[k]@); assert(row0(frame)[42]@ == cur(frame, 42)); }

//@ fn cairo/air.rs CairoAIR::get_builtin_offset
ensures ret == (if self.has_rc_builtin { 0 } else { 9usize }),
//@ fn cairo/air.rs AIR for CairoAIR::context
ensures *ret == self.context,
//@ fn starks/traits.rs AIR::num_transition_constraints {"rename": {"AIR": "CairoAIR"}}
ensures ret == self.context.num_transition_constraints,
//@ fn cairo/air.rs AIR for CairoAIR::compute_transition
requires frame.wf(2, if self.has_rc_builtin { 61 } else { 52 }),
    self.context.num_transition_constraints == (if self.has_rc_builtin { 50int } else { 49 }),
ensures ret@.len() == (if self.has_rc_builtin { 50int } else { 49 }),
    forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == poly(frame, rap_challenges, if self.has_rc_builtin { 0 } else { 9 }, i),
//@ fn cairo/air.rs AIR for CairoAIR::new {"rlimit": 200}
ensures
    ret.has_rc_builtin == pub_inputs.memory_segments@.dom().contains(0),
    ret.trace_length == trace_length, ret.pub_inputs == *pub_inputs,
    ret.context.num_transition_constraints == (if ret.has_rc_builtin { 50int } else { 49 }),
    ret.context.trace_columns == (if ret.has_rc_builtin { 61int } else { 52 }),
    ret.context.proof_options == *proof_options,
    ret.context.transition_offsets@ == seq![0usize, 1usize],
    ret.context.transition_degrees@.len() == ret.context.num_transition_constraints,
    ret.context.transition_exemptions@.len() == ret.context.num_transition_constraints,
    forall|i: int| 0 <= i < ret.context.transition_degrees@.len() ==> #[trigger] ret.context.transition_degrees@[i] == degree(i),
    forall|i: int| 0 <= i < ret.context.transition_exemptions@.len() ==> #[trigger] ret.context.transition_exemptions@[i] == (if 20 <= i <= 23 || i == 34 || i == 38 || i == 42 || i == 45 { 1int } else { 0 }),
