// ---- shared: one step of the Cairo machine ----------------------------------------------------
pub open spec fn f_base(ap_not_fp: bool, t: RegistersState) -> int { if ap_not_fp { t.ap as int } else { t.fp as int } }
pub open spec fn f_dst_addr(f: CairoInstructionFlags, o: InstructionOffsets, t: RegistersState) -> int { f_base(f.dst_reg is AP, t) + o.off_dst }
pub open spec fn f_op0_addr(f: CairoInstructionFlags, o: InstructionOffsets, t: RegistersState) -> int { f_base(f.op0_reg is AP, t) + o.off_op0 }
/// The second operand's address, the first operand being the memory cell at its own address.
pub open spec fn f_op1_addr(f: CairoInstructionFlags, o: InstructionOffsets, t: RegistersState, op0: FE) -> int {
    (match f.op1_src { Op1Src::Op0 => word(op0), Op1Src::Imm => t.pc as int, Op1Src::AP => t.ap as int, Op1Src::FP => t.fp as int }) + o.off_op1
}
/// Combinations the machine leaves undefined.
pub open spec fn f_defined(f: CairoInstructionFlags) -> bool {
    if f.pc_update is Jnz { f.res_logic is Op1 && f.opcode is NOp && !(f.ap_update is Add) } else { !(f.res_logic is Unconstrained) }
}
/// r is the result; a conditional jump has none, and carries the inverse of a nonzero dst there.
pub open spec fn f_res(f: CairoInstructionFlags, op0: int, op1: int, dst: int, r: int) -> bool {
    if f.pc_update is Jnz { !congr(dst, 0) ==> congr(dst * r, 1) }
    else { congr(r, match f.res_logic { ResLogic::Op1 => op1, ResLogic::Add => op0 + op1, _ => op0 * op1 }) }
}
pub open spec fn f_size(f: CairoInstructionFlags) -> int { if f.op1_src is Imm { 2 } else { 1 } }
pub open spec fn addr_ok(m: Map<int, FE>, a: int) -> bool { 0 <= a <= u64::MAX && m.dom().contains(a) }
