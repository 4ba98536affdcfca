//@ include fe.rs
//@ include num.rs
//@ include map.rs
//@ consts cairo/air.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/decode/instruction_flags.rs DstReg eq
//@ item cairo/decode/instruction_flags.rs Op0Reg eq
//@ item cairo/decode/instruction_flags.rs Op1Src eq
//@ item cairo/decode/instruction_flags.rs ResLogic eq
//@ item cairo/decode/instruction_flags.rs PcUpdate eq
//@ item cairo/decode/instruction_flags.rs ApUpdate eq
//@ item cairo/decode/instruction_flags.rs CairoOpcode eq
//@ item cairo/decode/instruction_flags.rs CairoInstructionFlags
//@ item cairo/decode/instruction_offsets.rs InstructionOffsets
//@ item cairo/register_states.rs RegistersState
//@ item cairo/register_states.rs RegisterStates
//@ item cairo/cairo_mem.rs CairoMemory
//@ item cairo/air.rs MemorySegment
//@ item starks/trace.rs TraceTable
//@ raw
#[derive(Debug)]
pub enum InstructionDecodingError { InvalidOpcode, InvalidPcUpdate, InvalidApUpdate, InvalidDstRegister, InvalidOp0Register, InvalidOp1Src, InvalidResLogic, InstructionNotFound, Other }
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
use std::ops::Range;
pub assume_specification<T: Clone>[<std::ops::Range<T> as Clone>::clone](x: &std::ops::Range<T>) -> (r: std::ops::Range<T>) ensures r == *x;
pub fn vx_i64_from(x: i32) -> (r: i64) ensures r == x { x as i64 }
#[verifier::external_body]
pub fn vx_checked_add_signed(a: u64, d: i64) -> (r: Option<u64>) ensures r.is_some() == (0 <= a + d <= u64::MAX), r.is_some() ==> r.unwrap() == a + d { unimplemented!() }
pub fn vx_fe_from(x: u64) -> (r: FE) ensures r@ == x { FE::from(x) }
//@ item cairo/air.rs PublicInputs
//@ include decode.rs
//@ include step.rs
//@ include table.rs
//@ include record.rs
//@ use c02 CairoMemory::get
//@ use c01 aux_get_last_nim_of_field_element
//@ use c01 TryFrom<&FE> for CairoInstructionFlags::try_from
//@ use c01 InstructionOffsets::new
//@ use c01 CairoInstructionFlags::to_trace_representation
//@ use c01 InstructionOffsets::to_trace_representation
//@ use c08 TraceTable::new_from_cols
//@ raw
pub open spec fn off_is(o: InstructionOffsets, w: int) -> bool { o.off_dst == off_of(w, 0) && o.off_op0 == off_of(w, 1) && o.off_op1 == off_of(w, 2) }
pub open spec fn instr(m: CairoMemory, t: RegistersState) -> int { word(m.data@[t.pc as int]) }
//@ include decode_lemmas.rs
//@ fn cairo/register_states.rs RegistersState::instruction_flags_and_offsets
ensures ret.is_ok() == (memory.data@.dom().contains(self.pc as int) && defined(instr(*memory, *self))),
    ret.is_ok() ==> decodes(instr(*memory, *self), ret->Ok_0.0) && off_is(ret->Ok_0.1, instr(*memory, *self)),
//@ fn cairo/register_states.rs RegisterStates::steps
ensures ret == self.rows@.len(),
//@ fn cairo/register_states.rs RegisterStates::flags_and_offsets {"collect_result": [0], "types": {"vo_0": "Vec<(CairoInstructionFlags, InstructionOffsets)>", "ve_0": "Option<InstructionDecodingError>"}}
ensures ret.is_ok() == (forall|i: int| 0 <= i < self.rows@.len() ==> memory.data@.dom().contains((#[trigger] self.rows@[i]).pc as int) && defined(instr(*memory, self.rows@[i]))),
    ret.is_ok() ==> ret->Ok_0@.len() == self.rows@.len() && forall|i: int| 0 <= i < self.rows@.len() ==>
        decodes(instr(*memory, self.rows@[i]), (#[trigger] ret->Ok_0@[i]).0) && off_is(ret->Ok_0@[i].1, instr(*memory, self.rows@[i])),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.rows@.len(), ve_0.is_none() ==> vo_0@.len() == vi_0,
    ve_0.is_none() ==> forall|i: int| 0 <= i < vi_0 ==> memory.data@.dom().contains((#[trigger] self.rows@[i]).pc as int) && defined(instr(*memory, self.rows@[i])),
    ve_0.is_none() ==> forall|i: int| 0 <= i < vi_0 ==> decodes(instr(*memory, self.rows@[i]), (#[trigger] vo_0@[i]).0) && off_is(vo_0@[i].1, instr(*memory, self.rows@[i])),
    ve_0.is_some() ==> 0 < vi_0 && !(memory.data@.dom().contains(self.rows@[vi_0 - 1].pc as int) && defined(instr(*memory, self.rows@[vi_0 - 1]))),
decreases vn_0 - vi_0
//@ fn cairo/execution_trace.rs compute_dst {"methods": {"into": "fn vx_i64_from", "checked_add_signed": "fn vx_checked_add_signed"}, "types": {"vo_0_0": "Vec<FE>", "vo_0_1": "Vec<FE>"}}
requires flags@.len() == register_states.rows@.len(), offsets@.len() == register_states.rows@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> addr_ok(memory.data@, f_dst_addr(#[trigger] flags@[i], offsets@[i], register_states.rows@[i])),
ensures ret.0@.len() == flags@.len(), ret.1@.len() == flags@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> (#[trigger] ret.0@[i])@ == f_dst_addr(flags@[i], offsets@[i], register_states.rows@[i]),
    forall|i: int| 0 <= i < flags@.len() ==> #[trigger] ret.1@[i] == memory.data@[f_dst_addr(flags@[i], offsets@[i], register_states.rows@[i])],
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == flags@.len(), vo_0_0@.len() == vi_0, vo_0_1@.len() == vi_0,
    forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0_0@[i])@ == f_dst_addr(flags@[i], offsets@[i], register_states.rows@[i]),
    forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0_1@[i] == memory.data@[f_dst_addr(flags@[i], offsets@[i], register_states.rows@[i])],
decreases vn_0 - vi_0
//@ fn cairo/execution_trace.rs compute_op0 {"methods": {"into": "fn vx_i64_from", "checked_add_signed": "fn vx_checked_add_signed"}, "types": {"vo_0_0": "Vec<FE>", "vo_0_1": "Vec<FE>"}}
requires flags@.len() == register_states.rows@.len(), offsets@.len() == register_states.rows@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> addr_ok(memory.data@, f_op0_addr(#[trigger] flags@[i], offsets@[i], register_states.rows@[i])),
ensures ret.0@.len() == flags@.len(), ret.1@.len() == flags@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> (#[trigger] ret.0@[i])@ == f_op0_addr(flags@[i], offsets@[i], register_states.rows@[i]),
    forall|i: int| 0 <= i < flags@.len() ==> #[trigger] ret.1@[i] == memory.data@[f_op0_addr(flags@[i], offsets@[i], register_states.rows@[i])],
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == flags@.len(), vo_0_0@.len() == vi_0, vo_0_1@.len() == vi_0,
    forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0_0@[i])@ == f_op0_addr(flags@[i], offsets@[i], register_states.rows@[i]),
    forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0_1@[i] == memory.data@[f_op0_addr(flags@[i], offsets@[i], register_states.rows@[i])],
decreases vn_0 - vi_0
//@ fn cairo/execution_trace.rs compute_op1 {"methods": {"into": "fn vx_i64_from", "checked_add_signed": "fn vx_checked_add_signed"}, "types": {"vo_0_0": "Vec<FE>", "vo_0_1": "Vec<FE>"}}
requires flags@.len() == register_states.rows@.len(), offsets@.len() == register_states.rows@.len(), op0s@.len() == flags@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> addr_ok(memory.data@, f_op1_addr(#[trigger] flags@[i], offsets@[i], register_states.rows@[i], op0s@[i])),
ensures ret.0@.len() == flags@.len(), ret.1@.len() == flags@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> (#[trigger] ret.0@[i])@ == f_op1_addr(flags@[i], offsets@[i], register_states.rows@[i], op0s@[i]),
    forall|i: int| 0 <= i < flags@.len() ==> #[trigger] ret.1@[i] == memory.data@[f_op1_addr(flags@[i], offsets@[i], register_states.rows@[i], op0s@[i])],
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == flags@.len(), vo_0_0@.len() == vi_0, vo_0_1@.len() == vi_0,
    forall|i: int| 0 <= i < vi_0 ==> (#[trigger] vo_0_0@[i])@ == f_op1_addr(flags@[i], offsets@[i], register_states.rows@[i], op0s@[i]),
    forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0_1@[i] == memory.data@[f_op1_addr(flags@[i], offsets@[i], register_states.rows@[i], op0s@[i])],
decreases vn_0 - vi_0
//@ fn cairo/execution_trace.rs compute_res {"types": {"vo_0": "Vec<FE>"}}
requires op0s@.len() == flags@.len(), op1s@.len() == flags@.len(), dsts@.len() == flags@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> f_defined(#[trigger] flags@[i]),
ensures ret@.len() == flags@.len(), forall|i: int| 0 <= i < flags@.len() ==> f_res(flags@[i], op0s@[i]@, op1s@[i]@, dsts@[i]@, (#[trigger] ret@[i])@),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == flags@.len(), vo_0@.len() == vi_0,
    forall|i: int| 0 <= i < vi_0 ==> f_res(flags@[i], op0s@[i]@, op1s@[i]@, dsts@[i]@, (#[trigger] vo_0@[i])@),
decreases vn_0 - vi_0
//@ fn cairo/execution_trace.rs compute_res {"name": "compute_res_refuses", "panic": "refuse", "types": {"vo_0": "Vec<FE>"}}
requires op0s@.len() == flags@.len(), op1s@.len() == flags@.len(), dsts@.len() == flags@.len(),
ensures forall|i: int| 0 <= i < flags@.len() ==> f_defined(#[trigger] flags@[i]),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == flags@.len(), vo_0@.len() == vi_0,
    forall|i: int| 0 <= i < vi_0 ==> f_defined(#[trigger] flags@[i]),
decreases vn_0 - vi_0
//@ fn cairo/execution_trace.rs update_values {"methods": {"into": "fn vx_fe_from"}}
requires flags@.len() == register_states.rows@.len(), old(op0s)@.len() == flags@.len(), old(dst)@.len() == flags@.len(), old(res)@.len() == flags@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> (#[trigger] register_states.rows@[i]).pc + 2 <= u64::MAX,
ensures final(op0s)@.len() == flags@.len(), final(dst)@.len() == flags@.len(), final(res)@.len() == flags@.len(),
    forall|i: int| 0 <= i < flags@.len() ==> (#[trigger] final(op0s)@[i])@ == (if flags@[i].opcode is Call { register_states.rows@[i].pc + f_size(flags@[i]) } else { old(op0s)@[i]@ }),
    forall|i: int| 0 <= i < flags@.len() ==> (#[trigger] final(dst)@[i])@ == (if flags@[i].opcode is Call { register_states.rows@[i].fp as int } else { old(dst)@[i]@ }),
    forall|i: int| 0 <= i < flags@.len() ==> (#[trigger] final(res)@[i])@ == (if flags@[i].opcode is AssertEq { old(dst)@[i]@ } else { old(res)@[i]@ }),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == flags@.len(), op0s@.len() == flags@.len(), dst@.len() == flags@.len(), res@.len() == flags@.len(),
    forall|i: int| 0 <= i < vi_0 ==> (#[trigger] op0s@[i])@ == (if flags@[i].opcode is Call { register_states.rows@[i].pc + f_size(flags@[i]) } else { old(op0s)@[i]@ }),
    forall|i: int| 0 <= i < vi_0 ==> (#[trigger] dst@[i])@ == (if flags@[i].opcode is Call { register_states.rows@[i].fp as int } else { old(dst)@[i]@ }),
    forall|i: int| 0 <= i < vi_0 ==> (#[trigger] res@[i])@ == (if flags@[i].opcode is AssertEq { old(dst)@[i]@ } else { old(res)@[i]@ }),
    forall|i: int| vi_0 <= i < vn_0 ==> #[trigger] op0s@[i] == old(op0s)@[i],
    forall|i: int| vi_0 <= i < vn_0 ==> #[trigger] dst@[i] == old(dst)@[i],
    forall|i: int| vi_0 <= i < vn_0 ==> #[trigger] res@[i] == old(res)@[i],
decreases vn_0 - vi_0
//@ fn cairo/execution_trace.rs rows_to_cols {"types": {"vo_0": "Vec<Vec<FE>>", "vo_1": "Vec<FE>"}}
requires rows@.len() > 0,
ensures ret@.len() == N, forall|c: int| 0 <= c < N ==> (#[trigger] ret@[c])@.len() == rows@.len(),
    forall|c: int, r: int| 0 <= c < N && 0 <= r < rows@.len() ==> #[trigger] ret@[c]@[r] == rows@[r][c],
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == N, vo_0@.len() == vi_0, forall|c: int| 0 <= c < vi_0 ==> (#[trigger] vo_0@[c])@.len() == rows@.len(),
    forall|c: int, r: int| 0 <= c < vi_0 && 0 <= r < rows@.len() ==> #[trigger] vo_0@[c]@[r] == rows@[r][c],
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == rows@.len(), vo_1@.len() == vi_1, vj_0 < vn_0, vn_0 == N, vo_0@.len() == vj_0, vi_0 == vj_0 + 1,
    forall|r: int| 0 <= r < vi_1 ==> #[trigger] vo_1@[r] == rows@[r][vj_0 as int],
decreases vn_1 - vi_1
//@ use c07 add_rc_builtin_columns
//@ raw
/// The decoded step agrees with the step the instruction word names.
pub open spec fn step_ok(f: CairoInstructionFlags, o: InstructionOffsets, t: RegistersState, m: Map<int, FE>) -> bool {
    let w = word(m[t.pc as int]);
    &&& f_dst_addr(f, o, t) == s_dst_addr(w, t) && f_op0_addr(f, o, t) == s_op0_addr(w, t)
    &&& f_op1_addr(f, o, t, m[s_op0_addr(w, t)]) == s_op1_addr(w, t, m[s_op0_addr(w, t)])
    &&& f_defined(f) && !(f.res_logic is Unconstrained) && !(f.ap_update is Add2)
    &&& addr_ok(m, s_dst_addr(w, t)) && addr_ok(m, s_op0_addr(w, t)) && addr_ok(m, s_op1_addr(w, t, m[s_op0_addr(w, t)]))
    &&& t.pc + 2 <= u64::MAX && m.dom().contains(t.pc as int)
    &&& f_size(f) == s_size(w)
    &&& (f.pc_update is Jnz) == (fl(w, 7, 8) == 4) && (f.opcode is Call) == (fl(w, 12, 8) == 1) && (f.opcode is AssertEq) == (fl(w, 12, 8) == 4)
    &&& (f.res_logic is Op1) == (fl(w, 5, 4) == 0) && (f.res_logic is Add) == (fl(w, 5, 4) == 1)
}
pub proof fn lemma_step(f: CairoInstructionFlags, o: InstructionOffsets, t: RegistersState, m: Map<int, FE>)
    requires valid_step(m, t), decodes(word(m[t.pc as int]), f), off_is(o, word(m[t.pc as int]))
    ensures step_ok(f, o, t, m)
{
    let op0 = m[s_op0_addr(word(m[t.pc as int]), t)];
    broadcast use axiom_P;
    assert(rep(op0) >= 0);
    if fl(word(m[t.pc as int]), 2, 8) == 0 { assert(word(op0) == rep(op0)); }
}
/// The values recorded for step i, by column.
pub open spec fn recorded(f: CairoInstructionFlags, t: RegistersState, m: Map<int, FE>, dst: FE, op0: FE, op1: FE, res: FE) -> bool {
    let w = word(m[t.pc as int]);
    let mdst = m[s_dst_addr(w, t)]@; let mop0 = m[s_op0_addr(w, t)]@; let mop1 = m[s_op1_addr(w, t, m[s_op0_addr(w, t)])]@;
    &&& congr(dst@, mdst) && congr(op0@, mop0) && op1@ == mop1
    &&& (if fl(w, 7, 8) == 4 { !congr(mdst, 0) ==> congr(mdst * res@, 1) } else { congr(res@, s_res(w, mop0, mop1)) })
}
pub proof fn lemma_recorded(f: CairoInstructionFlags, o: InstructionOffsets, t: RegistersState, m: Map<int, FE>, dst: FE, op0: FE, op1: FE, res: FE, r0: FE)
    requires valid_step(m, t), step_ok(f, o, t, m),
        ({ let w = word(m[t.pc as int]);
           &&& op1@ == m[s_op1_addr(w, t, m[s_op0_addr(w, t)])]@
           &&& dst@ == (if f.opcode is Call { t.fp as int } else { m[s_dst_addr(w, t)]@ })
           &&& op0@ == (if f.opcode is Call { t.pc + f_size(f) } else { m[s_op0_addr(w, t)]@ })
           &&& f_res(f, m[s_op0_addr(w, t)]@, op1@, m[s_dst_addr(w, t)]@, r0@)
           &&& res@ == (if f.opcode is AssertEq { m[s_dst_addr(w, t)]@ } else { r0@ }) })
    ensures recorded(f, t, m, dst, op0, op1, res)
{}
pub open spec fn cols_are(c: Seq<Vec<FE>>, n: int) -> bool { c.len() >= 34 && forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k])@.len() == n }
//@ fn cairo/execution_trace.rs build_cairo_execution_trace {"types": {"vo_0_0": "Vec<CairoInstructionFlags>", "vo_0_1": "Vec<InstructionOffsets>", "vo_1": "Vec<[FE; 16]>", "vo_2": "Vec<[FE; 3]>", "vo_3": "Vec<FE>", "vo_4": "Vec<FE>", "vo_5": "Vec<FE>", "vo_6": "Vec<FE>", "vo_7": "Vec<FE>", "vo_8": "Vec<FE>", "vo_9": "Vec<FE>"}, "rlimit": 200, "isolate": true}
requires run_valid(raw_trace.rows@, memory.data@, *public_inputs),
ensures ret.wf(), ret.nr() == raw_trace.rows@.len(), ret.n_cols == (if rc_range(*public_inputs) is Some { 43int } else { 34 }),
    all_recorded(ret, memory.data@, raw_trace.rows@),
    rc_range(*public_inputs) is Some ==> limb_columns(ret, memory.data@, rc_range(*public_inputs).unwrap()),
//@ bodystart
assert(raw_trace.rows@.len() > 0 && raw_trace.rows@.len() * 43 <= usize::MAX);
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == n_steps, vsrc_0_0@.len() == n_steps, vo_0_0@.len() == vi_0, vo_0_1@.len() == vi_0, n_steps == raw_trace.rows@.len(), forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0_0@[i] == vsrc_0_0@[i].0, forall|i: int| 0 <= i < vi_0 ==> #[trigger] vo_0_1@[i] == vsrc_0_0@[i].1,
    forall|i: int| 0 <= i < n_steps ==>  decodes(instr(*memory, raw_trace.rows@[i]), (#[trigger] vsrc_0_0@[i]).0) && off_is(vsrc_0_0@[i].1, instr(*memory, raw_trace.rows@[i])),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == n_steps, flags@.len() == n_steps, vo_1@.len() == vi_1, forall|i: int, k: int| 0 <= i < vi_1 && 0 <= k < 16 ==> (#[trigger] vo_1@[i][k])@ == flag_bit(flags@[i], k),
    forall|i: int| 0 <= i < n_steps ==> step_ok(#[trigger] flags@[i], offsets@[i], raw_trace.rows@[i], memory.data@),
decreases vn_1 - vi_1
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == n_steps, offsets@.len() == n_steps, vo_2@.len() == vi_2, forall|i: int| 0 <= i < vi_2 ==> (#[trigger] vo_2@[i])[0]@ == offsets@[i].off_dst + 0x8000 && vo_2@[i][1]@ == offsets@[i].off_op0 + 0x8000 && vo_2@[i][2]@ == offsets@[i].off_op1 + 0x8000,
    forall|i: int| 0 <= i < n_steps ==> off_is(#[trigger] offsets@[i], instr(*memory, raw_trace.rows@[i])),
decreases vn_2 - vi_2
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == n_steps, n_steps == raw_trace.rows@.len(), vo_3@.len() == vi_3, forall|i: int| 0 <= i < vi_3 ==> (#[trigger] vo_3@[i])@ == raw_trace.rows@[i].ap,
decreases vn_3 - vi_3
//@ loop 4
invariant vi_4 <= vn_4, vn_4 == n_steps, n_steps == raw_trace.rows@.len(), vo_4@.len() == vi_4, forall|i: int| 0 <= i < vi_4 ==> (#[trigger] vo_4@[i])@ == raw_trace.rows@[i].fp,
decreases vn_4 - vi_4
//@ loop 5
invariant vi_5 <= vn_5, vn_5 == n_steps, n_steps == raw_trace.rows@.len(), vo_5@.len() == vi_5, forall|i: int| 0 <= i < vi_5 ==> (#[trigger] vo_5@[i])@ == raw_trace.rows@[i].pc,
decreases vn_5 - vi_5
//@ loop 6
invariant vi_6 <= vn_6, vn_6 == n_steps, n_steps == raw_trace.rows@.len(), vo_6@.len() == vi_6, forall|i: int| 0 <= i < vi_6 ==> (#[trigger] vo_6@[i]) == memory.data@[raw_trace.rows@[i].pc as int],
 forall|i: int| 0 <= i < n_steps ==> memory.data@.dom().contains((#[trigger] raw_trace.rows@[i]).pc as int),
decreases vn_6 - vi_6
//@ loop 7
invariant vi_7 <= vn_7, vn_7 == n_steps, trace_repr_flags@.len() == n_steps, dsts@.len() == n_steps, vo_7@.len() == vi_7, forall|i: int| 0 <= i < vi_7 ==> (#[trigger] vo_7@[i])@ == trace_repr_flags@[i][9]@ * dsts@[i]@,
decreases vn_7 - vi_7
//@ loop 8
invariant vi_8 <= vn_8, vn_8 == n_steps, t0@.len() == n_steps, res@.len() == n_steps, vo_8@.len() == vi_8, forall|i: int| 0 <= i < vi_8 ==> (#[trigger] vo_8@[i])@ == t0@[i]@ * res@[i]@,
decreases vn_8 - vi_8
//@ loop 9
invariant vi_9 <= vn_9, vn_9 == n_steps, op0s@.len() == n_steps, op1s@.len() == n_steps, vo_9@.len() == vi_9, forall|i: int| 0 <= i < vi_9 ==> (#[trigger] vo_9@[i])@ == op0s@[i]@ * op1s@[i]@,
decreases vn_9 - vi_9
//@ loop 10
invariant vi_10 <= vn_10, vn_10 == 16, trace_repr_flags@.len() == 16, trace_cols@.len() == vi_10, forall|k: int| 0 <= k < vi_10 ==> (#[trigger] trace_cols@[k])@ =~= trace_repr_flags@[k]@,
decreases vn_10 - vi_10
//@ loop 11
invariant vi_11 <= vn_11, vn_11 == 3, trace_repr_offsets@.len() == 3, trace_cols@.len() == 27 + vi_11, forall|k: int| 0 <= k < 27 ==> #[trigger] trace_cols@[k] == gc[k], forall|k: int| 27 <= k < 27 + vi_11 ==> (#[trigger] trace_cols@[k])@ =~= trace_repr_offsets@[k - 27]@,
decreases vn_11 - vi_11
//@ before 11
let ghost gc = trace_cols@;
//@ after 11
proof {
    assert forall|k: int| 0 <= k < 30 implies (#[trigger] trace_cols@[k])@.len() == n_steps by { if k < 27 { assert(trace_cols@[k] == gc[k]); if k < 16 { assert(gc[k]@ == trace_repr_flags@[k]@); } } else { assert(trace_cols@[k]@ == trace_repr_offsets@[k - 27]@); } }
}
//@ stmt if_
proof {
    let c = trace_cols@;
    assert(c[30]@ == t0@ && c[31]@ == t1@ && c[32]@ == mul@ && c[33]@ == selector@);
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] c[k])@.len() == n_steps by {}
    assert(c.len() <= 43 && c[0]@.len() == n_steps);
    assert(c.len() * n_steps <= usize::MAX) by (nonlinear_arith) requires c.len() <= 43, n_steps * 43 <= usize::MAX, c.len() >= 0, n_steps >= 0;
}
//@ let offsets
proof { assert forall|i: int| 0 <= i < n_steps implies step_ok(#[trigger] flags@[i], offsets@[i], raw_trace.rows@[i], memory.data@) by { assert(valid_step(memory.data@, raw_trace.rows@[i])); lemma_step(flags@[i], offsets@[i], raw_trace.rows@[i], memory.data@); } }
//@ let res
let ghost r0 = res@;
let ghost d0 = dsts@;
let ghost p0 = op0s@;
proof { assert forall|i: int| 0 <= i < n_steps implies memory.data@.dom().contains((#[trigger] raw_trace.rows@[i]).pc as int) && raw_trace.rows@[i].pc + 2 <= u64::MAX by { assert(step_ok(flags@[i], offsets@[i], raw_trace.rows@[i], memory.data@)); } }
//@ let trace_repr_flags
let ghost rf = trace_repr_flags@;
proof { assert forall|i: int| 0 <= i < n_steps implies recorded(flags@[i], raw_trace.rows@[i], memory.data@, #[trigger] dsts@[i], op0s@[i], op1s@[i], res@[i]) by {
    assert(step_ok(flags@[i], offsets@[i], raw_trace.rows@[i], memory.data@)); assert(valid_step(memory.data@, raw_trace.rows@[i]));
    assert(f_res(flags@[i], p0[i]@, op1s@[i]@, d0[i]@, r0[i]@));
    lemma_recorded(flags@[i], offsets@[i], raw_trace.rows@[i], memory.data@, dsts@[i], op0s@[i], op1s@[i], res@[i], r0[i]); } }
//@ let trace_repr_offsets
let ghost ro = trace_repr_offsets@;
//@ tail
proof {
    let c = trace_cols@;
    if rc_range(*public_inputs) is Some {
        let r = rc_range(*public_inputs).unwrap();
        assert forall|j: int, i: int| RC_0 <= j < RC_0 + 8 && 0 <= i < r.end - r.start implies congr((#[trigger] vx_tail.cell(i, j))@, rep(memory.data@[r.start + i]) / ipow(0x1_0000, (j - RC_0) as nat) % 0x1_0000) by { assert(vx_tail.cell(i, j) == c[j]@[i]); }
        assert forall|i: int| 0 <= i < r.end - r.start implies #[trigger] vx_tail.cell(i, RC_VALUE as int) == memory.data@[r.start + i] by { assert(vx_tail.cell(i, RC_VALUE as int) == c[RC_VALUE as int]@[i]); }
        assert forall|j: int, i: int| RC_0 <= j < RC_0 + 9 && r.end - r.start <= i < n_steps implies (#[trigger] vx_tail.cell(i, j))@ == 0 by { assert(vx_tail.cell(i, j) == c[j]@[i]); }
    }
    assert forall|i: int| 0 <= i < n_steps implies row_records(vx_tail, i, memory.data@, #[trigger] raw_trace.rows@[i], i + 1 == n_steps) by {
        let t = raw_trace.rows@[i]; let w = word(memory.data@[t.pc as int]);
        assert(step_ok(flags@[i], offsets@[i], t, memory.data@)); assert(valid_step(memory.data@, t));
        assert(recorded(flags@[i], t, memory.data@, dsts@[i], op0s@[i], op1s@[i], res@[i]));
        assert forall|k: int| 0 <= k < 15 implies (#[trigger] vx_tail.cell(i, k))@ == bit(w, k) by {
            flags_round_trip(w, flags@[i], k);
            assert(rf[i][k]@ == flag_bit(flags@[i], k)); assert(trace_repr_flags@[k]@[i] == rf[i][k]); assert(c[k]@[i] == trace_repr_flags@[k]@[i]);
        }
    }
}
