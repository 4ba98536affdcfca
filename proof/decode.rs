// ---- shared: what an instruction word encodes --------------------------------------------------
/// The n-bit field of a 64-bit word that starts at flag bit k.
pub open spec fn fl(w: int, k: nat, m: int) -> int { (w / ipow(2, 48 + k)) % m }
pub open spec fn word(v: FE) -> int { rep(v) % 0x1_0000_0000_0000_0000 }
pub open spec fn dst_n(x: DstReg) -> int { match x { DstReg::AP => 0, DstReg::FP => 1 } }
pub open spec fn op0_n(x: Op0Reg) -> int { match x { Op0Reg::AP => 0, Op0Reg::FP => 1 } }
pub open spec fn op1_n(x: Op1Src) -> int { match x { Op1Src::Op0 => 0, Op1Src::Imm => 1, Op1Src::FP => 2, Op1Src::AP => 4 } }
pub open spec fn res_n(x: ResLogic) -> int { match x { ResLogic::Op1 => 0, ResLogic::Add => 1, ResLogic::Mul => 2, ResLogic::Unconstrained => 4 } }
pub open spec fn pc_n(x: PcUpdate) -> int { match x { PcUpdate::Regular => 0, PcUpdate::Jump => 1, PcUpdate::JumpRel => 2, PcUpdate::Jnz => 4 } }
pub open spec fn ap_n(x: ApUpdate) -> int { match x { ApUpdate::Regular => 0, ApUpdate::Add => 1, ApUpdate::Add1 => 2, ApUpdate::Add2 => 4 } }
pub open spec fn opc_n(x: CairoOpcode) -> int { match x { CairoOpcode::NOp => 0, CairoOpcode::Call => 1, CairoOpcode::Ret => 2, CairoOpcode::AssertEq => 4 } }
/// The seven fields of a word, each with the value the encoding defines.
pub open spec fn decodes(w: int, f: CairoInstructionFlags) -> bool {
    fl(w, 0, 2) == dst_n(f.dst_reg) && fl(w, 1, 2) == op0_n(f.op0_reg) && fl(w, 2, 8) == op1_n(f.op1_src) && fl(w, 5, 4) == res_n(f.res_logic)
        && fl(w, 7, 8) == pc_n(f.pc_update) && fl(w, 10, 4) == ap_n(f.ap_update) && fl(w, 12, 8) == opc_n(f.opcode)
}
pub open spec fn oh(x: int) -> bool { x == 0 || x == 1 || x == 2 || x == 4 }
/// Every field holds a value the encoding defines.
pub open spec fn defined(w: int) -> bool { oh(fl(w, 2, 8)) && fl(w, 5, 4) != 3 && oh(fl(w, 7, 8)) && fl(w, 10, 4) != 3 && oh(fl(w, 12, 8)) }
/// Bit i of the flag word these fields encode.
pub open spec fn flag_bit(f: CairoInstructionFlags, i: int) -> int {
    if i == 0 { dst_n(f.dst_reg) } else if i == 1 { op0_n(f.op0_reg) }
    else if i == 2 { op1_n(f.op1_src) % 2 } else if i == 3 { op1_n(f.op1_src) / 2 % 2 } else if i == 4 { op1_n(f.op1_src) / 4 % 2 }
    else if i == 5 { res_n(f.res_logic) % 2 } else if i == 6 { res_n(f.res_logic) / 2 % 2 }
    else if i == 7 { pc_n(f.pc_update) % 2 } else if i == 8 { pc_n(f.pc_update) / 2 % 2 } else if i == 9 { pc_n(f.pc_update) / 4 % 2 }
    else if i == 10 { ap_n(f.ap_update) % 2 } else if i == 11 { ap_n(f.ap_update) / 2 % 2 }
    else if i == 12 { opc_n(f.opcode) % 2 } else if i == 13 { opc_n(f.opcode) / 2 % 2 } else if i == 14 { opc_n(f.opcode) / 4 % 2 }
    else { 0 }
}
pub open spec fn off_of(w: int, k: nat) -> int { (w / ipow(2, 16 * k)) % 0x1_0000 - 0x8000 }
