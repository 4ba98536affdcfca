//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ config
{"methods": {"to_le_bytes": "vx_to_le", "overflowing_sub": "fn vx_overflowing_sub", "unsigned_abs": "fn vx_unsigned_abs"},
 "paths": {"u64::from_be_bytes": "vx_u64_from_be", "i16::from_le_bytes": "vx_i16_from_le", "i32::from": "vx_i32_from"}}
//@ consts cairo/decode/instruction_flags.rs
//@ consts cairo/decode/instruction_offsets.rs
//@ item cairo/errors.rs InstructionDecodingError
//@ item cairo/decode/instruction_flags.rs CairoInstructionFlags
//@ item cairo/decode/instruction_flags.rs Op0Reg
//@ item cairo/decode/instruction_flags.rs DstReg
//@ item cairo/decode/instruction_flags.rs Op1Src
//@ item cairo/decode/instruction_flags.rs ResLogic
//@ item cairo/decode/instruction_flags.rs PcUpdate
//@ item cairo/decode/instruction_flags.rs ApUpdate
//@ item cairo/decode/instruction_flags.rs CairoOpcode
//@ item cairo/decode/instruction_offsets.rs InstructionOffsets
//@ include decode.rs
//@ raw
broadcast proof fn m1(x: u64) ensures #[trigger] (x & 0x1) == x % 2 { assert((x & 0x1) == x % 2) by (bit_vector); }
broadcast proof fn m2(x: u64) ensures #[trigger] (x & 0x2) == 2 * ((x / 2) % 2) { assert((x & 0x2) == 2 * ((x / 2) % 2)) by (bit_vector); }
broadcast proof fn m3(x: u64) ensures #[trigger] (x & 0x3) == x % 4 { assert((x & 0x3) == x % 4) by (bit_vector); }
broadcast proof fn m7(x: u64) ensures #[trigger] (x & 0x7) == x % 8 { assert((x & 0x7) == x % 8) by (bit_vector); }
broadcast proof fn m1c(x: u64) ensures #[trigger] (x & 0x1c) == 4 * ((x / 4) % 8) { assert((x & 0x1c) == 4 * ((x / 4) % 8)) by (bit_vector); }
broadcast proof fn m60(x: u64) ensures #[trigger] (x & 0x60) == 0x20 * ((x / 0x20) % 4) { assert((x & 0x60) == 0x20 * ((x / 0x20) % 4)) by (bit_vector); }
broadcast proof fn m380(x: u64) ensures #[trigger] (x & 0x380) == 0x80 * ((x / 0x80) % 8) { assert((x & 0x380) == 0x80 * ((x / 0x80) % 8)) by (bit_vector); }
broadcast proof fn mc00(x: u64) ensures #[trigger] (x & 0xc00) == 0x400 * ((x / 0x400) % 4) { assert((x & 0xc00) == 0x400 * ((x / 0x400) % 4)) by (bit_vector); }
broadcast proof fn m7000(x: u64) ensures #[trigger] (x & 0x7000) == 0x1000 * ((x / 0x1000) % 8) { assert((x & 0x7000) == 0x1000 * ((x / 0x1000) % 8)) by (bit_vector); }
broadcast proof fn mffff(x: u64) ensures #[trigger] (x & 0xffff) == x % 0x1_0000 { assert((x & 0xffff) == x % 0x1_0000) by (bit_vector); }
broadcast proof fn sh(x: u64, k: u64) requires k == 0 || k == 1 || k == 2 || k == 5 || k == 7 || k == 10 || k == 12 || k == 16 || k == 32 || k == 48
    ensures #[trigger] (x >> k) == x as int / ipow(2, k as nat) {
    assert(x >> 0u64 == x && x >> 1u64 == x / 2 && x >> 2u64 == x / 4 && x >> 5u64 == x / 0x20 && x >> 7u64 == x / 0x80 && x >> 10u64 == x / 0x400 && x >> 12u64 == x / 0x1000
        && x >> 16u64 == x / 0x1_0000 && x >> 32u64 == x / 0x1_0000_0000 && x >> 48u64 == x / 0x1_0000_0000_0000) by (bit_vector);
    pows();
}
broadcast proof fn sh32(x: u64, k: u32) requires k == 0 || k == 16 || k == 32 || k == 48
    ensures #[trigger] (x >> k) == x as int / ipow(2, k as nat) {
    assert(x >> 0u32 == x && x >> 16u32 == x / 0x1_0000 && x >> 32u32 == x / 0x1_0000_0000 && x >> 48u32 == x / 0x1_0000_0000_0000) by (bit_vector);
    pows();
}
proof fn pows()
    ensures ipow(2, 0) == 1, ipow(2, 1) == 2, ipow(2, 2) == 4, ipow(2, 5) == 0x20, ipow(2, 7) == 0x80, ipow(2, 10) == 0x400, ipow(2, 12) == 0x1000,
        ipow(2, 15) == 0x8000, ipow(2, 16) == 0x1_0000, ipow(2, 32) == 0x1_0000_0000, ipow(2, 48) == 0x1_0000_0000_0000,
        ipow(2, 49) == 0x2_0000_0000_0000, ipow(2, 50) == 0x4_0000_0000_0000, ipow(2, 53) == 0x20_0000_0000_0000, ipow(2, 55) == 0x80_0000_0000_0000,
        ipow(2, 58) == 0x400_0000_0000_0000, ipow(2, 60) == 0x1000_0000_0000_0000, ipow(256, 8) == 0x1_0000_0000_0000_0000,
{
    reveal_with_fuel(ipow, 70);
    assert(ipow(2, 0) == 1 && ipow(2, 1) == 2 && ipow(2, 2) == 4 && ipow(2, 5) == 0x20 && ipow(2, 7) == 0x80 && ipow(2, 10) == 0x400 && ipow(2, 12) == 0x1000
        && ipow(2, 15) == 0x8000 && ipow(2, 16) == 0x1_0000 && ipow(2, 32) == 0x1_0000_0000 && ipow(2, 48) == 0x1_0000_0000_0000 && ipow(256, 8) == 0x1_0000_0000_0000_0000
        && ipow(2, 49) == 0x2_0000_0000_0000 && ipow(2, 50) == 0x4_0000_0000_0000 && ipow(2, 53) == 0x20_0000_0000_0000 && ipow(2, 55) == 0x80_0000_0000_0000
        && ipow(2, 58) == 0x400_0000_0000_0000 && ipow(2, 60) == 0x1000_0000_0000_0000) by (compute);
}
proof fn bits()
    ensures
        forall|x: u64| #[trigger] (x & 0x1) == x % 2, forall|x: u64| #[trigger] (x & 0x2) == 2 * ((x / 2) % 2), forall|x: u64| #[trigger] (x & 0x3) == x % 4,
        forall|x: u64| #[trigger] (x & 0x7) == x % 8, forall|x: u64| #[trigger] (x & 0x1c) == 4 * ((x / 4) % 8), forall|x: u64| #[trigger] (x & 0x60) == 0x20 * ((x / 0x20) % 4),
        forall|x: u64| #[trigger] (x & 0x380) == 0x80 * ((x / 0x80) % 8), forall|x: u64| #[trigger] (x & 0xc00) == 0x400 * ((x / 0x400) % 4),
        forall|x: u64| #[trigger] (x & 0x7000) == 0x1000 * ((x / 0x1000) % 8), forall|x: u64| #[trigger] (x & 0xffff) == x % 0x1_0000,
        forall|x: u64, k: u64| (k == 0 || k == 1 || k == 2 || k == 5 || k == 7 || k == 10 || k == 12 || k == 16 || k == 32 || k == 48) ==> #[trigger] (x >> k) == x as int / ipow(2, k as nat),
        forall|x: u64, k: u32| (k == 0 || k == 16 || k == 32 || k == 48) ==> #[trigger] (x >> k) == x as int / ipow(2, k as nat),
{
    broadcast use m1, m2, m3, m7, m1c, m60, m380, mc00, m7000, mffff, sh, sh32;
}
/// Shifting flags down by 48 and then taking a field is taking the field of the word.
proof fn div_chain(w: int)
    requires 0 <= w
    ensures w / 0x1_0000_0000_0000 / 2 == w / 0x2_0000_0000_0000, w / 0x1_0000_0000_0000 / 4 == w / 0x4_0000_0000_0000, w / 0x1_0000_0000_0000 / 0x20 == w / 0x20_0000_0000_0000,
        w / 0x1_0000_0000_0000 / 0x80 == w / 0x80_0000_0000_0000, w / 0x1_0000_0000_0000 / 0x400 == w / 0x400_0000_0000_0000, w / 0x1_0000_0000_0000 / 0x1000 == w / 0x1000_0000_0000_0000,
{
}
proof fn dec()
    ensures
        forall|v: FE| #![trigger word(v)] 0 <= word(v) < 0x1_0000_0000_0000_0000,
{ broadcast use axiom_P; }
//@ fn cairo/decode/instruction_flags.rs aux_get_last_nim_of_field_element
ensures ret == word(*value),
//@ let mem_value_bytes
proof { pows(); lemma_be_tail(mem_value_bytes@, 8); let s = mem_value_bytes@.subrange(24, 32);
    assert([mem_value_bytes@[24], mem_value_bytes@[25], mem_value_bytes@[26], mem_value_bytes@[27], mem_value_bytes@[28], mem_value_bytes@[29], mem_value_bytes@[30], mem_value_bytes@[31]]@ =~= s); }
//@ fn cairo/decode/instruction_flags.rs TryFrom<&FE> for Op0Reg::try_from
ensures ret.is_ok() == (true), ret.is_ok() ==> op0_n(ret->Ok_0) == fl(word(*mem_value), 1, 2),
//@ bodystart
proof { pows(); bits(); dec(); div_chain(word(*mem_value)); }
//@ fn cairo/decode/instruction_flags.rs TryFrom<&FE> for DstReg::try_from
ensures ret.is_ok() == (true), ret.is_ok() ==> dst_n(ret->Ok_0) == fl(word(*mem_value), 0, 2),
//@ bodystart
proof { pows(); bits(); dec(); div_chain(word(*mem_value)); }
//@ fn cairo/decode/instruction_flags.rs TryFrom<&FE> for Op1Src::try_from
ensures ret.is_ok() == (oh(fl(word(*mem_value), 2, 8))), ret.is_ok() ==> op1_n(ret->Ok_0) == fl(word(*mem_value), 2, 8),
//@ bodystart
proof { pows(); bits(); dec(); div_chain(word(*mem_value)); }
//@ fn cairo/decode/instruction_flags.rs TryFrom<&FE> for ResLogic::try_from
ensures ret.is_ok() == (fl(word(*mem_value), 5, 4) != 3), ret.is_ok() ==> res_n(ret->Ok_0) == fl(word(*mem_value), 5, 4),
//@ bodystart
proof { pows(); bits(); dec(); div_chain(word(*mem_value)); }
//@ fn cairo/decode/instruction_flags.rs TryFrom<&FE> for PcUpdate::try_from
ensures ret.is_ok() == (oh(fl(word(*mem_value), 7, 8))), ret.is_ok() ==> pc_n(ret->Ok_0) == fl(word(*mem_value), 7, 8),
//@ bodystart
proof { pows(); bits(); dec(); div_chain(word(*mem_value)); }
//@ fn cairo/decode/instruction_flags.rs TryFrom<&FE> for ApUpdate::try_from
ensures ret.is_ok() == (fl(word(*mem_value), 10, 4) != 3), ret.is_ok() ==> ap_n(ret->Ok_0) == fl(word(*mem_value), 10, 4),
//@ bodystart
proof { pows(); bits(); dec(); div_chain(word(*mem_value)); }
//@ fn cairo/decode/instruction_flags.rs TryFrom<&FE> for CairoOpcode::try_from
ensures ret.is_ok() == (oh(fl(word(*mem_value), 12, 8))), ret.is_ok() ==> opc_n(ret->Ok_0) == fl(word(*mem_value), 12, 8),
//@ bodystart
proof { pows(); bits(); dec(); div_chain(word(*mem_value)); }
//@ fn cairo/decode/instruction_flags.rs TryFrom<&FE> for CairoInstructionFlags::try_from
ensures ret.is_ok() == defined(word(*mem_value)), ret.is_ok() ==> decodes(word(*mem_value), ret->Ok_0),
//@ fn cairo/decode/instruction_flags.rs Op0Reg::to_trace_representation
ensures ret@ == op0_n(*self),
//@ fn cairo/decode/instruction_flags.rs DstReg::to_trace_representation
ensures ret@ == dst_n(*self),
//@ fn cairo/decode/instruction_flags.rs Op1Src::to_trace_representation
ensures ret[2]@ == op1_n(*self) % 2, ret[1]@ == op1_n(*self) / 2 % 2, ret[0]@ == op1_n(*self) / 4 % 2,
//@ fn cairo/decode/instruction_flags.rs ResLogic::to_trace_representation
requires !(self is Unconstrained),
ensures ret[1]@ == res_n(*self) % 2, ret[0]@ == res_n(*self) / 2 % 2,
//@ fn cairo/decode/instruction_flags.rs PcUpdate::to_trace_representation
ensures ret[2]@ == pc_n(*self) % 2, ret[1]@ == pc_n(*self) / 2 % 2, ret[0]@ == pc_n(*self) / 4 % 2,
//@ fn cairo/decode/instruction_flags.rs ApUpdate::to_trace_representation
requires !(self is Add2),
ensures ret[1]@ == ap_n(*self) % 2, ret[0]@ == ap_n(*self) / 2 % 2,
//@ fn cairo/decode/instruction_flags.rs CairoOpcode::to_trace_representation
ensures ret[2]@ == opc_n(*self) % 2, ret[1]@ == opc_n(*self) / 2 % 2, ret[0]@ == opc_n(*self) / 4 % 2,
//@ fn cairo/decode/instruction_flags.rs CairoInstructionFlags::to_trace_representation
requires !(self.res_logic is Unconstrained), !(self.ap_update is Add2),
ensures forall|i: int| 0 <= i < 16 ==> (#[trigger] ret[i])@ == flag_bit(*self, i),
//@ include decode_lemmas.rs
//@ fn cairo/decode/instruction_offsets.rs InstructionOffsets::decode_offset
requires instruction_offset == 0 || instruction_offset == 16 || instruction_offset == 32,
ensures ret == (word(*mem_value) / ipow(2, instruction_offset as nat)) % 0x1_0000 - 0x8000,
//@ bodystart
proof { pows(); bits(); dec(); broadcast use axiom_le_bytes; reveal_with_fuel(le, 3); }
//@ let vectorized_offset
proof {
    let s = vectorized_offset@;
    reveal_with_fuel(ipow, 9);
    assert(ipow(256, 8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(le(s) == offset);
    let t = s.subrange(1, 8); assert(t[0] == s[1]); 
    assert(le(s) == s[0] + 256 * le(t)); assert(le(t) == t[0] + 256 * le(t.subrange(1, 7)));
}
//@ let aux
proof { assert(aux@.subrange(1, 2)[0] == aux@[1]); assert(aux@.subrange(1, 2).subrange(1, 1).len() == 0); assert(le(aux@) == aux@[0] + 256 * aux@[1]); }
//@ fn cairo/decode/instruction_offsets.rs InstructionOffsets::new
ensures ret.off_dst == off_of(word(*mem_value), 0), ret.off_op0 == off_of(word(*mem_value), 1), ret.off_op1 == off_of(word(*mem_value), 2),
//@ fn cairo/decode/instruction_offsets.rs to_unbiased_representation {"methods": {"pow": "vx_pow"}}
requires -0x8000 <= n < 0x8000,
ensures ret@ == n + 0x8000,
//@ bodystart
proof { pows(); }
//@ fn cairo/decode/instruction_offsets.rs InstructionOffsets::to_trace_representation
requires -0x8000 <= self.off_dst < 0x8000, -0x8000 <= self.off_op0 < 0x8000, -0x8000 <= self.off_op1 < 0x8000,
ensures ret[0]@ == self.off_dst + 0x8000, ret[1]@ == self.off_op0 + 0x8000, ret[2]@ == self.off_op1 + 0x8000,
