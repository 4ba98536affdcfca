use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::decode::instruction_flags::*;
use lambdaworks_stark::cairo::decode::instruction_offsets::InstructionOffsets;
use replay::{cairo::Instr, *};
fn main() {
    let mut c = Ctx::new("C01");
    c.rule("all 2^15 flag patterns with random offsets, every single-bit and extreme offset, and random values in the bits above the word; compared with a bit-level reference decoder");
    let corner = [0u64, 1, 0x7fff, 0x8000, 0x8001, 0xffff, 0x80, 0xff, 0x100, 0x7f00];
    let rounds = c.n(4, 40);
    for k in 0..rounds as u64 * 32768 {
        if k % 4096 == 0 && c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k));
        let flags = k % 32768;
        let o: Vec<u64> = (0..3).map(|_| if r.bool() { *r.pick(&corner) } else { r.below(65536) }).collect();
        let w = o[0] | o[1] << 16 | o[2] << 32 | flags << 48;
        let mut v = FE::from(w);
        if r.chance(1, 8) {
            // a value above 2^64 whose low word is w (the high part is ignored by the decoder)
            let mut b = r.bytes(32);
            b[0] = 0;
            b[24..32].copy_from_slice(&w.to_be_bytes());
            v = FE::from_bytes_be(&b).unwrap();
        }
        let txt = || format!("word {w:#018x} value {}", fhex(&v));
        c.case(hash_of(&(w, fhex(&v))), txt);
        // offsets
        if let Some(of) = c.guard("offsets-panic", txt, || InstructionOffsets::new(&v)) {
            let got = [of.off_dst as i64, of.off_op0 as i64, of.off_op1 as i64];
            let want = [o[0] as i64 - 0x8000, o[1] as i64 - 0x8000, o[2] as i64 - 0x8000];
            c.check_eq("offsets", &got, &want, txt);
            if let Some(t) = c.guard("offset-representation-panics", txt, || of.to_trace_representation::<lambdaworks_stark::PrimeField>()) {
                for i in 0..3 {
                    c.check_eq("offset-representation", &fhex(&t[i]), &fhex(&FE::from(o[i])), txt);
                }
            }
        }
        // flags
        let want = Instr::decode(w);
        let Some(got) = c.guard("flags-panic", txt, || CairoInstructionFlags::try_from(&v)) else { continue };
        match (got, want) {
            (Err(_), None) => {}
            (Ok(f), None) => {
                c.check("undefined-flags-accepted", false, || format!("{} decoded to {f:?}", txt()));
            }
            (Err(e), Some(_)) => {
                c.check("defined-flags-refused", false, || format!("{}: {e:?}", txt()));
            }
            (Ok(f), Some(i)) => {
                let want = CairoInstructionFlags {
                    dst_reg: if i.dst_fp { DstReg::FP } else { DstReg::AP },
                    op0_reg: if i.op0_fp { Op0Reg::FP } else { Op0Reg::AP },
                    op1_src: match i.op1 {
                        0 => Op1Src::Op0,
                        1 => Op1Src::Imm,
                        2 => Op1Src::FP,
                        _ => Op1Src::AP,
                    },
                    res_logic: match i.res {
                        0 => ResLogic::Op1,
                        1 => ResLogic::Add,
                        _ => ResLogic::Mul,
                    },
                    pc_update: match i.pc {
                        0 => PcUpdate::Regular,
                        1 => PcUpdate::Jump,
                        2 => PcUpdate::JumpRel,
                        _ => PcUpdate::Jnz,
                    },
                    ap_update: match i.ap {
                        0 => ApUpdate::Regular,
                        1 => ApUpdate::Add,
                        _ => ApUpdate::Add1,
                    },
                    opcode: match i.opcode {
                        0 => CairoOpcode::NOp,
                        1 => CairoOpcode::Call,
                        2 => CairoOpcode::Ret,
                        _ => CairoOpcode::AssertEq,
                    },
                };
                c.check_eq("flags", &f, &want, txt);
                if let Some(t) = c.guard("flag-representation-panics", txt, || f.to_trace_representation()) {
                    for b in 0..16 {
                        let want = if b < 15 { flags >> b & 1 } else { 0 };
                        c.check_eq("flag-representation", &fhex(&t[b]), &fhex(&FE::from(want)), || format!("{} bit {b}", txt()));
                    }
                }
            }
        }
    }
    c.finish()
}
